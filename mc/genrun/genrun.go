// Package genrun runs the generator under test in scratch directories, as an unprivileged user.
package genrun

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

const nobody = 65534

var unprivileged = os.Getuid() == 0

// OutputName returns the documented name of the output of a template.
func OutputName(tmpl string) string {
	return strings.TrimSuffix(strings.TrimPrefix(tmpl, "_"), ".go") + ".generated.go"
}

// Scratch makes a scratch directory that the unprivileged user owns.
func Scratch(base string) (string, error) {
	d, err := os.MkdirTemp(base, "g")
	if err != nil {
		return "", err
	}
	if err := os.Chmod(d, 0o755); err != nil {
		return "", err
	}
	return d, Own(d)
}

// Own gives a file to the unprivileged user.
func Own(path string) error {
	if !unprivileged {
		return nil
	}
	if err := os.Lchown(path, nobody, nobody); err != nil {
		unprivileged = false
	}
	return nil
}

// Unprivileged says whether the generator runs as a user who may not read everything.
func Unprivileged() bool { return unprivileged }

// Result of a run.
type Result struct {
	Err    error // it could not be started, was killed or exited with an error
	Output string
}

// Run runs the generator with the arguments in a working directory.
func Run(gen, cwd string, env []string, args ...string) Result {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, gen, args...)
	cmd.Dir = cwd
	cmd.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=/nonexistent", "TMPDIR=/nonexistent"}, env...)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if unprivileged {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
	}
	err := cmd.Run()
	if err != nil && unprivileged && os.IsPermission(err) {
		unprivileged = false
		return Run(gen, cwd, env, args...)
	}
	return Result{err, out.String()}
}

// Fresh runs the generator on a new directory that holds only the files, and returns the files that are new.
func Fresh(gen, base string, files map[string]string) (map[string]string, error) {
	d, err := Scratch(base)
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(d)
	for f, s := range files {
		p := filepath.Join(d, f)
		if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
			return nil, err
		}
		if err := Own(p); err != nil {
			return nil, err
		}
	}
	r := Run(gen, d, nil, "-directory", d, "-generation", "complex")
	if r.Err != nil {
		return nil, fmt.Errorf("%v\n%.2000s", r.Err, r.Output)
	}
	es, err := os.ReadDir(d)
	if err != nil {
		return nil, err
	}
	out := map[string]string{}
	for _, e := range es {
		if _, ok := files[e.Name()]; ok {
			continue
		}
		b, err := os.ReadFile(filepath.Join(d, e.Name()))
		if err != nil {
			return nil, err
		}
		out[e.Name()] = string(b)
	}
	return out, nil
}

// Node is a file, directory or symbolic link of a Tree.
type Node struct {
	Kind    byte // 'f', 'd' or 'l'
	Mode    os.FileMode
	Content string // or the target of the link
}

// Tree maps slash-separated relative paths to nodes.
type Tree map[string]Node

// File is an ordinary file.
func File(s string) Node { return Node{'f', 0o644, s} }

// Clone copies a tree.
func (t Tree) Clone() Tree {
	u := Tree{}
	for k, v := range t {
		u[k] = v
	}
	return u
}

// Names lists the paths in order.
func (t Tree) Names() []string {
	var l []string
	for k := range t {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// Put creates one node under dir (its parents must exist).
func Put(dir, name string, n Node) error {
	p := filepath.Join(dir, filepath.FromSlash(name))
	var err error
	switch n.Kind {
	case 'd':
		if err = os.Mkdir(p, 0o755); err == nil {
			err = os.Chmod(p, n.Mode)
		}
	case 'l':
		err = os.Symlink(n.Content, p)
	default:
		if err = os.WriteFile(p, []byte(n.Content), 0o644); err == nil {
			err = os.Chmod(p, n.Mode)
		}
	}
	if err != nil {
		return err
	}
	return Own(p)
}

// Snapshot reads everything under dir.
func Snapshot(dir string) (Tree, error) {
	t := Tree{}
	err := filepath.WalkDir(dir, func(p string, e os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, err := filepath.Rel(dir, p)
		if err != nil || rel == "." {
			return err
		}
		i, err := e.Info()
		if err != nil {
			return err
		}
		n := Node{Mode: i.Mode().Perm(), Kind: 'f'}
		switch {
		case i.IsDir():
			n.Kind = 'd'
		case i.Mode()&os.ModeSymlink != 0:
			n.Kind, n.Mode = 'l', 0
			n.Content, err = os.Readlink(p)
		case i.Mode().IsRegular():
			var b []byte
			b, err = os.ReadFile(p)
			n.Content = string(b)
		default:
			n.Kind = '?'
		}
		t[filepath.ToSlash(rel)] = n
		return err
	})
	return t, err
}
