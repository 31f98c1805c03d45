package main

// Pipes to the reference-model processes (node) and the parallel driver that
// parses every enumerated program with the code under test and has the
// outcome compared with the reference.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"

	"github.com/hsiaosiyuan0/mole/ecma/estree"
	"github.com/hsiaosiyuan0/mole/ecma/parser"
	"github.com/hsiaosiyuan0/mole/span"
)

type refProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func startRef(script string) *refProc {
	cmd := exec.Command("node", "--stack-size=4000", filepath.Join(verifDir(), "ref", script))
	cmd.Stderr = os.Stderr
	in, err := cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	return &refProc{cmd, in, bufio.NewReaderSize(out, 1<<20)}
}

func (r *refProc) close() { r.in.Close(); r.cmd.Wait() }

type mismatch struct {
	I    int    `json:"i"`
	Kind string `json:"k"`
	D    string `json:"d"`
}

type refReply struct {
	Both int64      `json:"both"`
	Rej  int64      `json:"rej"`
	Disp int64      `json:"disputed"`
	MM   []mismatch `json:"mm"`
}

// ask sends a batch (already encoded lines) and reads the reply line.
func (r *refProc) ask(body []byte) (*refReply, error) {
	go func() {
		r.in.Write(body)
		io.WriteString(r.in, "\n")
	}()
	line, err := r.out.ReadBytes('\n')
	if err != nil {
		return nil, err
	}
	rep := &refReply{}
	if err := json.Unmarshal(line, rep); err != nil {
		return nil, fmt.Errorf("%v: %.200s", err, line)
	}
	return rep, nil
}

type outcome struct {
	panicMsg string
	err      error
	errMsg   string
	json     []byte
	ast      parser.Node
	p        *parser.Parser
}

func optsFor(mode string) *parser.ParserOpts {
	o := parser.NewParserOpts()
	for _, m := range strings.Split(mode, "+") {
		switch m {
		case "module":
		case "script":
			o.Feature = o.Feature.Off(parser.FEAT_MODULE).Off(parser.FEAT_STRICT).Off(parser.FEAT_GLOBAL_ASYNC).Off(parser.FEAT_IMPORT_DEC).Off(parser.FEAT_EXPORT_DEC)
		case "ts":
			o.Feature = o.Feature.On(parser.FEAT_TS).Off(parser.FEAT_JSX)
		case "tsx":
			o.Feature = o.Feature.On(parser.FEAT_TS).On(parser.FEAT_JSX)
		case "dts":
			o.Feature = o.Feature.On(parser.FEAT_TS).On(parser.FEAT_DTS).Off(parser.FEAT_JSX)
		case "nojsx":
			o.Feature = o.Feature.Off(parser.FEAT_JSX)
		case "regflags":
			o.Feature = o.Feature.On(parser.FEAT_CHK_REGEXP_FLAGS).On(parser.FEAT_REGEXP_UNICODE).On(parser.FEAT_REGEXP_STICKY).On(parser.FEAT_REGEXP_DOT_ALL).On(parser.FEAT_REGEXP_HAS_INDICES)
		case "jsxns":
			o.Feature = o.Feature.On(parser.FEAT_JSX).On(parser.FEAT_JSX_NS)
		default:
			panic("mode " + mode)
		}
	}
	return o
}

func parseWith(src string, o *parser.ParserOpts, conv bool) (r outcome) {
	defer func() {
		if x := recover(); x != nil {
			r.panicMsg = fmt.Sprint(x)
			if r.panicMsg == "" {
				r.panicMsg = "panic"
			}
		}
	}()
	s := span.NewSource("", src)
	p := parser.NewParser(s, o)
	r.p = p
	r.ast, r.err = p.Prog()
	if r.err != nil {
		r.errMsg = r.err.Error()
		if r.errMsg == "" {
			r.errMsg = "error"
		}
		return
	}
	if conv {
		var b bytes.Buffer
		e := json.NewEncoder(&b)
		e.SetEscapeHTML(false)
		if err := e.Encode(estree.ConvertProg(r.ast.(*parser.Prog), estree.NewConvertCtx(p))); err != nil {
			panic("json: " + err.Error())
		}
		r.json = bytes.TrimRight(b.Bytes(), "\n")
	}
	return
}

func parseMode(mode, src string) outcome { return parseWith(src, optsFor(mode), true) }

type item struct {
	mode string
	src  string
}

func (it item) key() string { return it.mode + "|" + it.src }

func splitKey(k string) item {
	i := strings.IndexByte(k, '|')
	if i < 0 {
		return item{"module", k}
	}
	return item{k[:i], k[i+1:]}
}

func encodeReq(buf *bytes.Buffer, refMode string, it item, o *outcome) {
	buf.WriteString(`{"m":`)
	buf.WriteString(jsonStr(refMode))
	buf.WriteString(`,"s":`)
	buf.WriteString(jsonStr(it.src))
	if o.panicMsg != "" {
		buf.WriteString(`,"p":`)
		buf.WriteString(jsonStr(o.panicMsg))
	} else if o.errMsg != "" {
		buf.WriteString(`,"e":`)
		buf.WriteString(jsonStr(o.errMsg))
	} else {
		buf.WriteString(`,"r":`)
		buf.Write(o.json)
	}
	buf.WriteString("}\n")
}

// diffRun parses every item the generator emits and compares it with the reference.
// kinds: which mismatch kinds violate the property being checked.
func diffRun(c *Ctx, kinds string, refMode func(mode string) string, gen func(emit func(item) bool)) {
	if refMode == nil {
		refMode = func(m string) string { return m }
	}
	diffRunEnc(c, kinds, "ref.js", func(buf *bytes.Buffer, it item) {
		o := parseMode(it.mode, it.src)
		encodeReq(buf, refMode(it.mode), it, &o)
	}, gen)
}

// diffRunEnc: enc runs the code under test on an item and appends the request line
// (the item and what the code under test answered) for the reference script.
func diffRunEnc(c *Ctx, kinds, script string, enc func(buf *bytes.Buffer, it item), gen func(emit func(item) bool)) {
	const batch = 200
	ch := make(chan []item, 64)
	var wg sync.WaitGroup
	want := map[string]bool{}
	for _, k := range strings.Fields(kinds) {
		want[k] = true
	}
	for w := 0; w < c.Workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ref := startRef(script)
			defer ref.close()
			sl := c.Slot()
			var buf bytes.Buffer
			for b := range ch {
				if c.TooMany() {
					continue
				}
				buf.Reset()
				for _, it := range b {
					sl.Enter(it.key())
					enc(&buf, it)
					sl.Leave()
				}
				rep, err := ref.ask(buf.Bytes())
				if err != nil {
					fmt.Fprintln(os.Stderr, "reference process:", err)
					os.Exit(3)
				}
				c.Add("agree_accept", rep.Both)
				c.Add("agree_reject", rep.Rej)
				c.Add("references_disagree", rep.Disp)
				c.Add("traces_validated_against_impl", int64(len(b)))
				for _, m := range rep.MM {
					if !want[m.Kind] {
						c.Add("other_kind_"+m.Kind, 1)
						continue
					}
					it := b[m.I]
					// confirm: the same single input must fail the same way again
					same := true
					var last mismatch
					for n := 0; n < 3 && same; n++ {
						buf.Reset()
						enc(&buf, it)
						r2, err := ref.ask(buf.Bytes())
						if err != nil {
							fmt.Fprintln(os.Stderr, "reference process:", err)
							os.Exit(3)
						}
						same = false
						for _, m2 := range r2.MM {
							if m2.Kind == m.Kind {
								same = true
								last = m2
							}
						}
					}
					if !same {
						c.Add("unconfirmed", 1)
						continue
					}
					c.Violate(it.key(), last.Kind+": "+last.D, map[string]string{"mode": it.mode, "source": it.src, "kind": last.Kind, "diff": last.D})
				}
			}
		}()
	}
	cur := make([]item, 0, batch)
	n := 0
	dd := newDedup()
	gen(func(it item) bool {
		c.bump(&n)
		if !dd.fresh(it.key()) {
			return true
		}
		if k := len(dd.m); k&(k-1) == 0 {
			c.Sample(it.key())
		}
		cur = append(cur, it)
		if len(cur) == batch {
			ch <- cur
			cur = make([]item, 0, batch)
			if c.Expired() || c.TooMany() {
				return false
			}
		}
		return true
	})
	if len(cur) > 0 {
		ch <- cur
	}
	close(ch)
	wg.Wait()
	c.Add("transitions", int64(n))
	c.Add("states", int64(len(dd.m)))
}

func (c *Ctx) bump(n *int) { *n++ }

// goRun is the parallel driver for checks that need no reference process.
func goRun(c *Ctx, gen func(emit func(item) bool), work func(sl *slot, it item)) {
	const batch = 100
	ch := make(chan []item, 64)
	var wg sync.WaitGroup
	for w := 0; w < c.Workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sl := c.Slot()
			for b := range ch {
				if c.TooMany() {
					continue
				}
				for _, it := range b {
					sl.Enter(it.key())
					work(sl, it)
					sl.Leave()
				}
			}
		}()
	}
	cur := make([]item, 0, batch)
	n := 0
	dd := newDedup()
	gen(func(it item) bool {
		n++
		if !dd.fresh(it.key()) {
			return true
		}
		if k := len(dd.m); k&(k-1) == 0 {
			c.Sample(it.key())
		}
		cur = append(cur, it)
		if len(cur) == batch {
			ch <- cur
			cur = make([]item, 0, batch)
			if c.Expired() || c.TooMany() {
				return false
			}
		}
		return true
	})
	if len(cur) > 0 {
		ch <- cur
	}
	close(ch)
	wg.Wait()
	c.Add("transitions", int64(n))
	c.Add("states", int64(len(dd.m)))
}
