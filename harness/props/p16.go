package props

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/lestrrat-go/helium"
	"pgregory.net/rapid"
)

// P16: helium-lint does what the library does. The command is built by
// run.sh, VH_LINT tells where it is.

type lintInput struct {
	Kind string // file, missing, dir, again, fifo
	Name string
	Data []byte
}

type lintCase struct {
	In    []lintInput // arguments, none: standard input
	Stdin []byte
	How   string // of standard input: pipe, file, slow
}

func genLintDoc(t *rapid.T) []byte {
	switch uni(t, 25) {
	case 0:
		return genSource(t)
	case 1:
		return genBroken(t).Src
	case 2:
		return genBadEnt(t).Src
	case 3:
		return []byte(pick(t, []string{"", " ", "<a/>", "<a", "\n<a/>\n", "x", "<?xml version='1.0'?>", "<a/><b/>", "\xff\xfe", "\ufeff<a/>", "<a>\x00</a>", "<a/>\x00"}))
	case 4, 6, 7:
		// much output
		if chance(t, 1, 30) { // more than a megabyte
			s := strings.Repeat("0123456789 abcdef\n", ri(t, 58000, 75000))
			return []byte("<r>" + s + pick(t, []string{"<b/></r>", "</r>", "</q>", "", "</r>\n<!--" + s + "-->"}))
		}
		s := strings.Repeat(genLongText(t, false), ri(t, 1, 20))
		s = strings.NewReplacer("&", "&amp;", "<", "&lt;", "]]>", "").Replace(s)
		return []byte("<r>" + s + "<b>" + s + "</b></r>")
	case 5, 8, 9:
		return genEncCase(t).Bytes
	default:
		return spell(t, genDoc(t, GenOpt{MaxElems: 10}))
	}
}

func genLintCase(t *rapid.T) lintCase {
	var c lintCase
	if chance(t, 1, 3) {
		c.Stdin = genLintDoc(t)
		c.How = pick(t, []string{"pipe", "file", "slow"})
		return c
	}
	if chance(t, 1, 3) {
		c.Stdin, c.How = []byte("<stdin/>"), "pipe"
	}
	names := []string{"a.xml", "b.xml", "c d.xml", "é.xml", "A.XML", "x", "a=b", "%s.xml", "sub/a.xml"}
	most := 4
	if chance(t, 1, 60) {
		most = 60
	}
	for i := ri(t, 1, most); i > 0; i-- {
		in := lintInput{Kind: "file", Name: pick(t, names)}
		switch uni(t, 41) {
		case 0:
			in.Kind = "missing"
		case 1:
			in.Kind = "dir"
		case 2:
			in.Kind = "fifo"
		case 3, 4, 5:
			in.Kind = "again"
		}
		if in.Kind != "again" {
			in.Name = fmt.Sprintf("%d%s", i, in.Name)
			if strings.Contains(in.Name, "sub/") {
				in.Name = fmt.Sprintf("sub/%d", i)
			}
			in.Data = genLintDoc(t)
		}
		c.In = append(c.In, in)
	}
	return c
}

func checkLint(c lintCase) Out {
	bin := os.Getenv("VH_LINT")
	if bin == "" {
		return Out{Labels: []string{"there is no command to run"}}
	}
	dir, err := os.MkdirTemp("", "vh-lint-")
	if err != nil {
		return Out{Labels: []string{"no scratch directory"}}
	}
	defer os.RemoveAll(dir)
	os.Mkdir(filepath.Join(dir, "sub"), 0o755)
	var args []string
	var sample strings.Builder

	var stop, all bytes.Buffer // what is printed: up to the first fault, or with all others
	failed := false
	partial := false // a document can be parsed, but not serialised
	var msgs []string
	one := func(data []byte) {
		doc, err := helium.Parse(data)
		var b bytes.Buffer
		if err == nil {
			if err = (&helium.Dumper{}).DumpDoc(&b, doc); err != nil {
				partial = true
			}
		}
		if err != nil {
			if !failed {
				msgs = append(msgs, err.Error())
			}
			failed = true
			return
		}
		if !failed {
			stop.Write(b.Bytes())
		}
		all.Write(b.Bytes())
	}
	var prev lintInput
	out := Out{}
	for i, in := range c.In {
		if in.Kind == "again" {
			if i == 0 || prev.Kind == "fifo" {
				continue
			}
			in = prev
			out.Labels = append(out.Labels, "a file twice")
		}
		prev = in
		path := filepath.Join(dir, in.Name)
		args = append(args, path)
		fmt.Fprintf(&sample, "%s %s: %s\n", in.Kind, in.Name, cut(string(in.Data), 200))
		switch in.Kind {
		case "file":
			if err := os.WriteFile(path, in.Data, 0o644); err != nil {
				return Out{Labels: []string{"can not write"}}
			}
			one(in.Data)
		case "fifo":
			if err := syscall.Mkfifo(path, 0o600); err != nil {
				return Out{Labels: []string{"no fifo"}}
			}
			go func(data []byte) {
				// ends when there is a reader, see below
				fh, err := os.OpenFile(path, os.O_WRONLY, 0)
				if err != nil {
					return
				}
				fh.Write(data)
				fh.Close()
			}(in.Data)
			defer func() {
				// let a writer that is still waiting go
				if fh, err := os.OpenFile(path, os.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil {
					time.Sleep(time.Millisecond)
					fh.Close()
				}
			}()
			one(in.Data)
			out.Labels = append(out.Labels, "fifo")
		case "dir":
			os.Mkdir(path, 0o755)
			failed = true
			out.Labels = append(out.Labels, "a directory")
		default:
			failed = true
			out.Labels = append(out.Labels, "a missing file")
		}
	}
	if len(args) == 0 {
		one(c.Stdin)
		fmt.Fprintf(&sample, "stdin (%s): %s\n", c.How, cut(string(c.Stdin), 300))
		out.Labels = append(out.Labels, "stdin")
	}
	out.Sample = sample.String()
	out.NonTrivial = len(args) > 1 || len(args) == 0 && len(c.Stdin) > 20

	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	switch {
	case c.How == "file":
		f := filepath.Join(dir, "stdin")
		os.WriteFile(f, c.Stdin, 0o644)
		fh, err := os.Open(f)
		if err != nil {
			return Out{Labels: []string{"can not read"}}
		}
		defer fh.Close()
		cmd.Stdin = fh
	case c.How == "slow":
		cmd.Stdin = &slowReader{b: c.Stdin}
	case c.How == "pipe":
		cmd.Stdin = bytes.NewReader(c.Stdin)
	}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err = cmd.Run()
	if ctx.Err() != nil {
		out.Err = errorf("helium-lint did not end\n%s", out.Sample)
		return out
	}
	code := cmd.ProcessState.ExitCode()
	if code < 0 {
		out.Err = errorf("helium-lint was killed: %v\n%s\n%s", err, cut(se.String(), 1000), out.Sample)
		return out
	}
	switch {
	case !failed && code != 0:
		out.Err = errorf("exit status %d, all input is well-formed: %s\n%s", code, cut(se.String(), 1000), out.Sample)
	case failed && code == 0:
		out.Err = errorf("exit status 0, not all input is readable and well-formed\n%s", out.Sample)
	case failed && se.Len() == 0 && !strings.Contains(so.String(), "rror"):
		out.Err = errorf("no error is reported\n%s", out.Sample)
	case !partial && !bytes.Equal(so.Bytes(), stop.Bytes()) && !bytes.Equal(so.Bytes(), all.Bytes()):
		out.Err = errorf("wrong output: %s\n%s", diffLines(stop.String(), so.String()), out.Sample)
	}
	if failed {
		out.Labels = append(out.Labels, "failing")
	}
	if out.Err == nil && len(msgs) > 0 {
		for _, m := range msgs {
			if !strings.Contains(se.String()+so.String(), m) && !strings.HasPrefix(firstFault(c), "dir") {
				out.Err = errorf("the error %q is not reported: %s\n%s", m, cut(se.String(), 1000), out.Sample)
			}
		}
	}
	return out
}

// firstFault is the kind of the first input that can not be read
func firstFault(c lintCase) string {
	for _, in := range c.In {
		if in.Kind == "dir" || in.Kind == "missing" {
			return "dir"
		}
	}
	return ""
}

type slowReader struct {
	b []byte
	n int
}

func (r *slowReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	if r.n%3 == 0 {
		time.Sleep(200 * time.Microsecond)
	}
	r.n++
	k := 1 + len(r.b)/5
	if k > len(p) {
		k = len(p)
	}
	if k > len(r.b) {
		k = len(r.b)
	}
	copy(p, r.b[:k])
	r.b = r.b[k:]
	return k, nil
}

func init() {
	prop("P16", "at least two files, or a document of more than 20 bytes on standard input")
	reg("P16", "runs", 8000, 150000, genLintCase, checkLint)
}
