package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"net"
	"os"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/fetcher"
)

type errKind struct {
	name  string
	also  []string // the more general kinds
	make  func(r *rand.Rand, msg string) error
	is    func(err error) bool // through errors.Is with the plain kind
	as    func(err error) (bool, error)
	plain error
}

func kindOf[T error](name string, plain T, mk func(r *rand.Rand, msg string) error, also ...string) errKind {
	return errKind{name: name, also: also, make: mk, plain: plain,
		is: func(err error) bool { return errors.Is(err, plain) },
		as: func(err error) (bool, error) {
			var t T
			ok := errors.As(err, &t)
			return ok, t
		}}
}

var errKinds = []errKind{
	kindOf("ErrRepository", metadata.ErrRepository{}, func(r *rand.Rand, m string) error { return metadata.ErrRepository{Msg: m} }),
	kindOf("ErrUnsignedMetadata", metadata.ErrUnsignedMetadata{}, func(r *rand.Rand, m string) error { return metadata.ErrUnsignedMetadata{Msg: m} }, "ErrRepository"),
	kindOf("ErrBadVersionNumber", metadata.ErrBadVersionNumber{}, func(r *rand.Rand, m string) error { return metadata.ErrBadVersionNumber{Msg: m} }, "ErrRepository"),
	kindOf("ErrEqualVersionNumber", metadata.ErrEqualVersionNumber{}, func(r *rand.Rand, m string) error { return metadata.ErrEqualVersionNumber{Msg: m} }, "ErrRepository", "ErrBadVersionNumber"),
	kindOf("ErrExpiredMetadata", metadata.ErrExpiredMetadata{}, func(r *rand.Rand, m string) error { return metadata.ErrExpiredMetadata{Msg: m} }, "ErrRepository"),
	kindOf("ErrLengthOrHashMismatch", metadata.ErrLengthOrHashMismatch{}, func(r *rand.Rand, m string) error { return metadata.ErrLengthOrHashMismatch{Msg: m} }, "ErrRepository"),
	kindOf("ErrDownload", metadata.ErrDownload{}, func(r *rand.Rand, m string) error { return metadata.ErrDownload{Msg: m} }),
	kindOf("ErrDownloadLengthMismatch", metadata.ErrDownloadLengthMismatch{}, func(r *rand.Rand, m string) error { return metadata.ErrDownloadLengthMismatch{Msg: m} }, "ErrDownload"),
	kindOf("ErrDownloadHTTP", metadata.ErrDownloadHTTP{}, func(r *rand.Rand, m string) error {
		return metadata.ErrDownloadHTTP{StatusCode: pick(r, []int{0, 100, 204, 301, 403, 404, 429, 500, 503, 999, -1}), URL: m}
	}, "ErrDownload"),
	kindOf("ErrValue", metadata.ErrValue{}, func(r *rand.Rand, m string) error { return metadata.ErrValue{Msg: m} }),
	kindOf("ErrType", metadata.ErrType{}, func(r *rand.Rand, m string) error { return metadata.ErrType{Msg: m} }),
	kindOf("ErrRuntime", metadata.ErrRuntime{}, func(r *rand.Rand, m string) error { return metadata.ErrRuntime{Msg: m} }),
}

type oddErr struct{ s []string } // not comparable

func (oddErr) Error() string { return "odd" }

var foreignErrs = []error{io.EOF, io.ErrUnexpectedEOF, os.ErrNotExist, os.ErrPermission, fs.ErrExist, context.DeadlineExceeded, context.Canceled, net.ErrClosed, errNet, errors.New("x"), oddErr{[]string{"a"}}, &oddErr{}, &os.PathError{Op: "open", Path: "p", Err: os.ErrNotExist}}

// wrapErr wraps an error the ways callers do.
func wrapErr(r *rand.Rand, err error) (error, string) {
	how := ""
	for k := r.Intn(4); k > 0; k-- {
		switch r.Intn(3) {
		case 0:
			err, how = fmt.Errorf("context: %w", err), how+"w"
		case 1:
			err, how = fmt.Errorf("%w: detail", err), how+"W"
		case 2:
			err, how = errors.Join(err, pick(r, []error{nil, io.EOF, errNet})), how+"j"
		}
	}
	return err, how
}

// kindCase: one error against every kind.
func kindCase(c *Case) {
	r := c.Rng
	for i := 0; i < 10; i++ {
		k := pick(r, errKinds)
		msg := pick(r, []string{"", "", "x", "root", "expired", "404", richString(r), "repository error: ", "%s%d", "\x00"})
		e := k.make(r, msg)
		err, how := wrapErr(r, e)
		c.Eval()
		c.Distinct("kind", k.name, msg == "", how)
		c.Count("errors judged")
		anc := map[string]bool{k.name: true}
		for _, a := range k.also {
			anc[a] = true
		}
		for _, t := range errKinds {
			c.Count("pairs of kinds")
			if got := t.is(err); got != anc[t.name] {
				c.Fail("match:"+k.name+":"+t.name, "errors.Is of %s%+v (wrapped %q) with %s: %v", k.name, e, how, t.name, got)
				return
			}
			// another error of an unrelated kind, with the same message
			if !anc[t.name] && errors.Is(err, t.make(r, msg)) {
				c.Fail("match-msg:"+k.name+":"+t.name, "%s%+v matches %s with a message", k.name, e, t.name)
				return
			}
			ok, val := t.as(err)
			if t.name == k.name && (!ok || val != e) {
				c.Fail("as:"+k.name, "errors.As of %s%+v (wrapped %q): %v %+v", k.name, e, how, ok, val)
				return
			}
			if !anc[t.name] && ok {
				c.Fail("as-other:"+k.name+":"+t.name, "errors.As takes %s for %s", k.name, t.name)
				return
			}
		}
		if !errors.Is(err, e) {
			c.Fail("self:"+k.name, "%s%+v does not match itself", k.name, e)
			return
		}
		for _, f := range foreignErrs {
			if errors.Is(e, f) {
				c.Fail("foreign:"+k.name, "%s matches %v", k.name, f)
				return
			}
			fe, _ := wrapErr(r, f)
			if k.is(fe) {
				c.Fail("foreign-kind:"+k.name, "%v matches %s", fe, k.name)
				return
			}
			if ok, _ := k.as(fe); ok {
				c.Fail("foreign-as:"+k.name, "%v is taken for %s", fe, k.name)
				return
			}
		}
		if e.Error() == "" {
			c.Fail("text:"+k.name, "%s%+v has no text", k.name, e)
		}
		// two problems at once
		o := pick(r, errKinds)
		both := errors.Join(err, o.make(r, msg))
		for _, t := range []errKind{k, o} {
			if !t.is(both) {
				c.Fail("joined", "%s joined with %s does not match %s", k.name, o.name, t.name)
			}
		}
	}
	c.Sample(map[string]any{"kinds": len(errKinds)})
}

func init() {
	registry["C26"] = &Prop{Level: "exploration", Asm: asmCommon,
		Rule: "all pairs of error kinds under any message and wrapping; every refusal in verifications, fetches, " + ruleT + ruleU + "the kind reported compared with the problems the input has; non-trivial cases are distinct combinations of operation, problems and kinds",
		F: func(r *Run) {
			r.Cases("kinds", r.N(2000, 30000), kindCase)
			r.Cases("verify", r.N(2000, 50000), verifyCase)
			r.Cases("entries", r.N(500, 20000), lenHashCase)
			srv := newTCPServer()
			defer srv.ln.Close()
			f := &fetcher.DefaultFetcher{}
			r.Cases("fetch", r.N(1500, 30000), func(c *Case) { fetchCase(c, srv, f) })
			r.casesN("stall", r.N(24, 200), 24, func(c *Case) { stallCase(c, srv, f) })
			r.Cases("unreachable", r.N(30, 300), func(c *Case) { unreachableCase(c, f) })
			tRun(r, "t-mixed", r.N(1200, 30000), profMixed)
			tRun(r, "t-order", r.N(600, 15000), profOrder)
			tRun(r, "t-targets", r.N(500, 15000), profTarg)
			tRun(r, "t-root", r.N(500, 15000), profRoot)
			uRun(r, "u-net", r.N(300, 10000), uNet)
			uRun(r, "u-mixed", r.N(400, 15000), uMixed)
			uRun(r, "u-down", r.N(150, 5000), uDown)
			r.Need("pairs of kinds", 100000)
			for _, x := range []string{"sig", "version", "equal", "expired", "lenhash", "order"} {
				r.Need("refused for "+x, 200)
			}
			r.Need("refused: http", 50)
			r.Need("refused: toolong", 20)
			r.Need("fetches: http", 100)
			r.Need("downloads refused", 300)
		}}
}
