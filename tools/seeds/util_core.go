package core

import (
	"archive/zip"
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"github.com/getsolus/ferryd/src/libeopkg"
)

// zArea is a manager over a scratch directory.
func zArea(t *testing.T) (*Manager, string) {
	d := t.TempDir()
	if err := os.Mkdir(filepath.Join(d, "base"), 0755); err != nil {
		t.Fatal(err)
	}
	m, err := NewManager(filepath.Join(d, "base"))
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(m.Close)
	return m, d
}

// zPkg writes a small package file.
func zPkg(t *testing.T, dir, name, source, version string, rel int) string {
	if err := os.MkdirAll(dir, 0755); err != nil {
		t.Fatal(err)
	}
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d-1-x86_64.eopkg", name, version, rel))
	zWrite(t, p, name, source, version, rel)
	return p
}

func zWrite(t *testing.T, p, name, source, version string, rel int) {
	f, err := os.Create(p)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	z := zip.NewWriter(f)
	w, err := z.Create("metadata.xml")
	if err != nil {
		t.Fatal(err)
	}
	fmt.Fprintf(w, `<PISI><Source><Name>%s</Name></Source><Package><Name>%s</Name><Summary xml:lang="en">s</Summary><Description xml:lang="en">d</Description><History><Update release="%d"><Version>%s</Version></Update></History><DistributionRelease>1</DistributionRelease><Architecture>x86_64</Architecture><Source><Name>%s</Name></Source></Package></PISI>`, source, name, rel, version, source)
	if err := z.Close(); err != nil {
		t.Fatal(err)
	}
}

func zMust(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatal(err)
	}
}

func zRepo(t *testing.T, m *Manager, id string) *Repository {
	t.Helper()
	r, err := m.GetRepo(id)
	if err != nil {
		t.Fatal(err)
	}
	return r
}

func zEntry(t *testing.T, m *Manager, repo, name string) *RepoEntry {
	t.Helper()
	e, err := zRepo(t, m, repo).GetEntry(m.db, name)
	if err != nil {
		return nil
	}
	return e
}

func zPool(t *testing.T, m *Manager, id string) *PoolEntry {
	e, err := m.pool.GetEntry(m.db, id)
	if err != nil {
		return nil
	}
	return e
}

func zDelta(t *testing.T, m *Manager, dir, repo, name, source string, from, to string, fr, tr int) string {
	t.Helper()
	p := filepath.Join(dir, fmt.Sprintf("%s-%d-%d-1-x86_64.delta.eopkg", name, fr, tr))
	zWrite(t, p, name, source, "1", tr)
	zMust(t, m.AddDelta(repo, p, &DeltaInformation{FromID: from, ToID: to}))
	return filepath.Base(p)
}

var _ = libeopkg.Open

// zAdd puts builds of one source into a repository.
func zAdd(t *testing.T, m *Manager, d, repo, name, source string, rels ...int) []string {
	t.Helper()
	var ids []string
	for _, r := range rels {
		p := zPkg(t, d, name, source, "1", r)
		zMust(t, m.AddPackages(repo, []string{p}, false))
		ids = append(ids, filepath.Base(p))
	}
	return ids
}

// zHas tells whether a build is listed.
func zHas(t *testing.T, m *Manager, repo, name, id string) bool {
	t.Helper()
	e := zEntry(t, m, repo, name)
	if e == nil {
		return false
	}
	for _, a := range e.Available {
		if a == id {
			return true
		}
	}
	return false
}
