package props

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/lestrrat-go/helium"
	"pgregory.net/rapid"
)

// More files than the command may have open at a time, and output that can
// not be written.

type manyCase struct {
	Docs  [][]byte // the files, cyclically
	N     int
	Limit int // of file descriptors
	Bad   int // the file with a fault, -1: none
	Full  bool
}

func genMany(t *rapid.T) manyCase {
	c := manyCase{N: ri(t, 1, 60), Limit: ri(t, 24, 40), Bad: -1, Full: chance(t, 1, 2)}
	for i := ri(t, 1, 3); i > 0; i-- {
		if chance(t, 1, 2) {
			c.Docs = append(c.Docs, []byte(fmt.Sprintf("<a>%d</a>", i)))
		} else {
			c.Docs = append(c.Docs, spell(t, genDoc(t, GenOpt{MaxElems: 6})))
		}
	}
	if !c.Full {
		c.N = ri(t, 150, 400)
		if chance(t, 1, 3) {
			c.Bad = ri(t, 0, c.N-1)
		}
	}
	return c
}

func checkMany(c manyCase) Out {
	bin := os.Getenv("VH_LINT")
	if bin == "" {
		return Out{Labels: []string{"there is no command to run"}}
	}
	dir, err := os.MkdirTemp("", "vh-lint-")
	if err != nil {
		return Out{Labels: []string{"no scratch directory"}}
	}
	defer os.RemoveAll(dir)
	out := Out{NonTrivial: true, Sample: fmt.Sprintf("%d files, limit %d, fault in %d, full: %v: %s", c.N, c.Limit, c.Bad, c.Full, cut(string(c.Docs[0]), 200))}
	if c.Full {
		out.Labels = []string{"the output can not be written"}
	} else {
		out.Labels = []string{"more files than descriptors"}
	}
	var want bytes.Buffer
	var dumps [][]byte
	for _, d := range c.Docs {
		doc, err := helium.Parse(d)
		if err != nil {
			return Out{Err: errorf("well-formed document rejected: %v\ndocument: %s", err, show(d))}
		}
		var b bytes.Buffer
		if err := (&helium.Dumper{}).DumpDoc(&b, doc); err != nil {
			return Out{Err: errorf("can not be written: %v\ndocument: %s", err, show(d))}
		}
		dumps = append(dumps, b.Bytes())
	}
	args := []string{"-c", fmt.Sprintf(`ulimit -n %d || exit 77; exec "$0" "$@"`, c.Limit), bin}
	for i := 0; i < c.N; i++ {
		d := c.Docs[i%len(c.Docs)]
		if i == c.Bad {
			d = []byte("<bad>")
		}
		p := filepath.Join(dir, fmt.Sprintf("f%d.xml", i))
		if err := os.WriteFile(p, d, 0o644); err != nil {
			return Out{Labels: []string{"can not write"}}
		}
		args = append(args, p)
		if c.Bad < 0 || i < c.Bad {
			want.Write(dumps[i%len(dumps)])
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "/bin/sh", args...)
	cmd.Dir = dir
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if c.Full {
		fh, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			return Out{Labels: []string{"no full device"}}
		}
		defer fh.Close()
		cmd.Stdout = fh
	}
	cmd.Run()
	if ctx.Err() != nil {
		out.Err = errorf("helium-lint did not end\n%s", out.Sample)
		return out
	}
	switch code := cmd.ProcessState.ExitCode(); {
	case code == 77:
		return Out{Labels: []string{"no limit"}}
	case code < 0:
		out.Err = errorf("helium-lint was killed: %s\n%s", cut(se.String(), 1000), out.Sample)
	case c.Full && code == 0:
		out.Err = errorf("exit status 0, but the output could not be written\n%s", out.Sample)
	case c.Full && se.Len() == 0:
		out.Err = errorf("no error is reported, but the output could not be written\n%s", out.Sample)
	case c.Full:
	case c.Bad < 0 && code != 0:
		out.Err = errorf("exit status %d, all input is well-formed: %s\n%s", code, cut(se.String(), 1000), out.Sample)
	case c.Bad >= 0 && code == 0:
		out.Err = errorf("exit status 0, but file %d is not well-formed\n%s", c.Bad, out.Sample)
	case c.Bad >= 0 && se.Len() == 0 && !strings.Contains(so.String(), "rror"):
		out.Err = errorf("no error is reported\n%s", out.Sample)
	case !bytes.HasPrefix(so.Bytes(), want.Bytes()) || c.Bad < 0 && so.Len() != want.Len():
		out.Err = errorf("wrong output: %s\n%s", diffLines(want.String(), so.String()), out.Sample)
	}
	return out
}

func init() {
	reg("P16", "many", 100, 3000, genMany, checkMany)
}
