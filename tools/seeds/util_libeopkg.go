package libeopkg

import (
	"archive/tar"
	"archive/zip"
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"testing"
)

type zFile struct{ path, hash, body string }

func zMust(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatal(err)
	}
}

// zPkg writes a package with a payload and extra members.
func zPkg(t *testing.T, d, name string, rel int, files []zFile, extra ...string) string {
	t.Helper()
	p := filepath.Join(d, fmt.Sprintf("%s-1-%d-1-x86_64.eopkg", name, rel))
	f, err := os.Create(p)
	zMust(t, err)
	z := zip.NewWriter(f)
	w, err := z.Create("metadata.xml")
	zMust(t, err)
	fmt.Fprintf(w, `<PISI><Source><Name>%s</Name></Source><Package><Name>%s</Name><Summary xml:lang="en">s</Summary><Description xml:lang="en">d</Description><History><Update release="%d"><Version>1</Version></Update></History><DistributionRelease>1</DistributionRelease><Architecture>x86_64</Architecture><Source><Name>%s</Name></Source></Package></PISI>`, name, name, rel, name)
	w, err = z.Create("files.xml")
	zMust(t, err)
	fmt.Fprint(w, "<Files>")
	for _, x := range files {
		h := ""
		if x.hash != "" {
			h = "<Hash>" + x.hash + "</Hash>"
		}
		fmt.Fprintf(w, `<File><Path>%s</Path><Type>data</Type><Size>%d</Size><Mode>0644</Mode><Uid>0</Uid><Gid>0</Gid>%s</File>`, x.path, len(x.body), h)
	}
	fmt.Fprint(w, "</Files>")
	for _, x := range extra {
		w, err = z.Create(x)
		zMust(t, err)
		io.WriteString(w, "extra "+x)
	}
	ball := filepath.Join(d, "ball.tar")
	b, err := os.Create(ball)
	zMust(t, err)
	tw := tar.NewWriter(b)
	for _, x := range files {
		h := &tar.Header{Name: x.path, Mode: 0644, Size: int64(len(x.body)), Typeflag: tar.TypeReg}
		if x.hash == "" {
			h = &tar.Header{Name: x.path + "/", Mode: 0755, Typeflag: tar.TypeDir}
		}
		zMust(t, tw.WriteHeader(h))
		io.WriteString(tw, x.body)
	}
	zMust(t, tw.Close())
	zMust(t, b.Close())
	zMust(t, exec.Command("xz", "-f", ball).Run())
	c, err := os.ReadFile(ball + ".xz")
	zMust(t, err)
	w, err = z.Create("install.tar.xz")
	zMust(t, err)
	w.Write(c)
	zMust(t, z.Close())
	zMust(t, f.Close())
	return p
}

// zDelta produces a delta and lists its members and its payload's entries.
func zDelta(t *testing.T, d, old, new string) (members, entries map[string]bool, err error) {
	t.Helper()
	pr, err := NewDeltaProducer(filepath.Join(d, "work"), old, new)
	zMust(t, err)
	defer pr.Close()
	p, err := pr.Commit()
	if err != nil {
		return nil, nil, err
	}
	r, err := zip.OpenReader(p)
	zMust(t, err)
	defer r.Close()
	members, entries = map[string]bool{}, map[string]bool{}
	for _, f := range r.File {
		members[f.Name] = true
		if f.Name != "install.tar.xz" {
			continue
		}
		rc, err := f.Open()
		zMust(t, err)
		c, err := io.ReadAll(rc)
		zMust(t, err)
		cmd := exec.Command("xz", "-dc")
		cmd.Stdin = bytes.NewReader(c)
		out, err := cmd.Output()
		zMust(t, err)
		tr := tar.NewReader(bytes.NewReader(out))
		for {
			h, err := tr.Next()
			if err == io.EOF {
				break
			}
			zMust(t, err)
			entries[h.Name] = true
		}
	}
	return members, entries, nil
}
