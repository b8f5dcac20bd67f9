package jobs

import (
	"archive/zip"
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"github.com/getsolus/ferryd/src/ferryd/core"
)

func zMust(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatal(err)
	}
}

// zArea is a manager over a scratch directory.
func zArea(t *testing.T) (*core.Manager, string) {
	t.Helper()
	d := t.TempDir()
	zMust(t, os.Mkdir(filepath.Join(d, "base"), 0755))
	m, err := core.NewManager(filepath.Join(d, "base"))
	zMust(t, err)
	t.Cleanup(m.Close)
	return m, d
}

// zPkg writes a small package file.
func zPkg(t *testing.T, d, name string, rel int, arch string) string {
	t.Helper()
	p := filepath.Join(d, fmt.Sprintf("%s-1-%d-1-%s.eopkg", name, rel, arch))
	f, err := os.Create(p)
	zMust(t, err)
	defer f.Close()
	z := zip.NewWriter(f)
	w, err := z.Create("metadata.xml")
	zMust(t, err)
	fmt.Fprintf(w, `<PISI><Source><Name>%s</Name></Source><Package><Name>%s</Name><Summary xml:lang="en">s</Summary><Description xml:lang="en">d</Description><History><Update release="%d"><Version>1</Version></Update></History><DistributionRelease>1</DistributionRelease><Architecture>%s</Architecture><Source><Name>%s</Name></Source></Package></PISI>`, name, name, rel, arch, name)
	zMust(t, z.Close())
	return p
}
