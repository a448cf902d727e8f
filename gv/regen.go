package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// regenerate runs the repository's generators on the API descriptors its code is linked with, for the files its
// go:generate directives name, and returns an overlay that has what they produce in place of what is checked in.
func regenerate(tmp string, ov map[string]string) (map[string]string, error) {
	protos := map[string]bool{}
	dirs := map[string]bool{}
	err := filepath.Walk(repoDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if strings.HasPrefix(fi.Name(), ".") && p != repoDir {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, ".pb.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		for _, l := range strings.Split(string(b), "\n") {
			if !strings.HasPrefix(l, "//go:generate ") || !strings.Contains(l, "--router_out") || !strings.Contains(l, "--wrapper_out") {
				continue
			}
			for _, w := range strings.Fields(l) {
				if strings.HasSuffix(w, ".proto") {
					protos[w] = true
					dirs[filepath.Dir(p)] = true
				}
			}
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	if len(protos) == 0 {
		return nil, fmt.Errorf("no go:generate directives found")
	}
	oj, _ := json.Marshal(map[string]any{"Replace": ov})
	oj2 := filepath.Join(tmp, "genreq.json")
	if err := os.WriteFile(oj2, oj, 0o644); err != nil {
		return nil, err
	}
	run := func(stdin []byte, name string, args ...string) ([]byte, error) {
		c := exec.Command(name, args...)
		c.Dir = repoDir
		c.Stdin = bytes.NewReader(stdin)
		var out, er bytes.Buffer
		c.Stdout, c.Stderr = &out, &er
		if err := c.Run(); err != nil {
			return nil, fmt.Errorf("%s: %v\n%s", filepath.Base(name)+" "+strings.Join(args, " "), err, trunc(er.String(), 3000))
		}
		return out.Bytes(), nil
	}
	for n, p := range map[string]string{"genreq": "./internal/genreq", "genrouter": "./cmd/protoc-gen-router", "genwrapper": "./cmd/protoc-gen-wrapper"} {
		if _, err := run(nil, "go", "build", "-overlay", oj2, "-o", filepath.Join(tmp, n), p); err != nil {
			return nil, err
		}
	}
	var ps []string
	for p := range protos {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	req, err := run(nil, filepath.Join(tmp, "genreq"), ps...)
	if err != nil {
		return nil, err
	}
	out := map[string]string{}
	for d := range dirs {
		ents, _ := os.ReadDir(d)
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), "_router.pb.go") || strings.HasSuffix(e.Name(), "_wrap.pb.go") {
				out[filepath.Join(d, e.Name())] = ""
			}
		}
	}
	n := 0
	for _, g := range []string{"genrouter", "genwrapper"} {
		res, err := run(req, filepath.Join(tmp, g))
		if err != nil {
			return nil, err
		}
		err = pbFields(res, func(f int, b []byte) error {
			switch f {
			case 1:
				return fmt.Errorf("%s: %s", g, b)
			case 15:
				var name, content string
				if err := pbFields(b, func(f int, b []byte) error {
					switch f {
					case 1:
						name = string(b)
					case 15:
						content = string(b)
					}
					return nil
				}); err != nil {
					return err
				}
				n++
				p := filepath.Join(tmp, fmt.Sprintf("gen%d.go", n))
				out[filepath.Join(repoDir, filepath.FromSlash(name))] = p
				return os.WriteFile(p, []byte(content), 0o644)
			}
			return nil
		})
		if err != nil {
			return nil, err
		}
	}
	if n == 0 {
		return nil, fmt.Errorf("the generators produced nothing")
	}
	return out, nil
}

// pbFields calls f with the length delimited fields of an encoded message.
func pbFields(b []byte, f func(int, []byte) error) error {
	bad := fmt.Errorf("not a plugin's response")
	varint := func() (r uint64, ok bool) {
		for s := 0; s < 64 && len(b) > 0; s += 7 {
			c := b[0]
			b = b[1:]
			r |= uint64(c&127) << s
			if c < 128 {
				return r, true
			}
		}
		return 0, false
	}
	for len(b) > 0 {
		t, ok := varint()
		if !ok {
			return bad
		}
		n, ok := varint()
		if !ok || t&7 != 0 && t&7 != 2 {
			return bad
		}
		if t&7 == 0 {
			continue
		}
		if n > uint64(len(b)) {
			return bad
		}
		if err := f(int(t>>3), b[:n]); err != nil {
			return err
		}
		b = b[n:]
	}
	return nil
}
