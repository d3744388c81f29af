package props

import (
	stderrors "errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"strings"

	"github.com/dufourgilles/emberlib/asn1"
	"github.com/dufourgilles/emberlib/errors"
	"github.com/dufourgilles/emberlib/logger"
	"pgregory.net/rapid"
	"vpharness/engine"
)

// ---- C27

// logOp is one call on a logger.
type logOp struct {
	Op   string // error, warn, info, debug, debugln, level
	L    int    // level set, 0..3 from error to debug
	Fmt  string
	Args []int
	Text string
	Fmts int `json:",omitempty"` // the format, how often more
	Long int `json:",omitempty"` // the text, how often more
}

func (l logOp) format() string { return strings.Repeat(l.Fmt, 1+l.Fmts) }
func (l logOp) text() string   { return strings.Repeat(l.Text, 1+l.Long) }

type logCase struct {
	Null  bool
	Start int
	Ops   []logOp
}

// levels from the most severe to the least
var levels = []logger.LogLevel{logger.ErrorLevel, logger.WarnLevel, logger.InfoLevel, logger.DebugLevel}

var logFormats = []string{"plain", "line\n", "", "%d", "%d and %s\n", "100%%\n", "%5d|%-4s|\n", "%v %v", "%q", "%x\n", "a%sb%dc\n", "no newline %t"}

func genLog(t *rapid.T) logCase {
	c := logCase{Null: rapid.IntRange(0, 7).Draw(t, "null") == 0, Start: rapid.IntRange(0, 3).Draw(t, "start")}
	c.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) logOp {
		op := logOp{Op: rapid.SampledFrom([]string{"error", "warn", "info", "debug", "debugln", "level"}).Draw(t, "op"),
			L: rapid.IntRange(0, 3).Draw(t, "level"), Fmt: rapid.SampledFrom(logFormats).Draw(t, "fmt"),
			Args: rapid.SliceOfN(rapid.IntRange(-1000, 1000), 0, 3).Draw(t, "args"), Text: rapid.StringN(0, 10, 20).Draw(t, "text")}
		if rapid.IntRange(0, 40).Draw(t, "long") == 17 {
			op.Fmts = rapid.IntRange(0, 60).Draw(t, "fmts")
			op.Args = rapid.SliceOfN(rapid.IntRange(-1000, 1000), 0, 60).Draw(t, "manyArgs")
			op.Long = rapid.OneOf(rapid.IntRange(0, 300), rapid.IntRange(0, 10000)).Draw(t, "longText")
		}
		return op
	}), 1, 25).Draw(t, "ops")
	return c
}

func (l logOp) args() []interface{} {
	var out []interface{}
	for i, a := range l.Args {
		switch i % 3 {
		case 0:
			out = append(out, a)
		case 1:
			out = append(out, l.text())
		default:
			out = append(out, a%2 == 0)
		}
	}
	return out
}

// printed is what f writes to standard output.
func printed(f func()) (string, error) {
	tmp, err := os.CreateTemp("", "vp-log")
	if err != nil {
		return "", err
	}
	defer os.Remove(tmp.Name())
	defer tmp.Close()
	old := os.Stdout
	os.Stdout = tmp
	defer func() { os.Stdout = old }()
	f()
	if _, err := tmp.Seek(0, 0); err != nil {
		return "", err
	}
	b, err := io.ReadAll(tmp)
	return string(b), err
}

func runLog(c logCase, o *engine.Obs) error {
	var l logger.Logger
	if c.Null {
		l = logger.NewNullLogger()
		l.SetLogLevel(levels[c.Start])
		o.Label("null logger")
	} else {
		l = logger.NewConsoleLogger(levels[c.Start])
	}
	level := c.Start
	shown, hidden := 0, 0
	var fail error
	for i, op := range c.Ops {
		if got := l.GetLogLevel(); got != levels[level] {
			return fmt.Errorf("before call %d the level is %v, want %v", i, got, levels[level])
		}
		if op.Op == "level" {
			l.SetLogLevel(levels[op.L])
			level = op.L
			if got := l.GetLogLevel(); got != levels[level] {
				return fmt.Errorf("level set to %v reads %v", levels[level], got)
			}
			continue
		}
		want, sev := "", 0
		got, err := printed(func() {
			defer func() {
				if p := recover(); p != nil {
					fail = fmt.Errorf("call %d panics: %v", i, p)
				}
			}()
			switch op.Op {
			case "error":
				want = "message " + op.text()
				l.Error(errors.New("message %s", op.text()))
			case "warn":
				sev, want = 1, fmt.Sprintf(op.format(), op.args()...)
				l.Warn(op.format(), op.args()...)
			case "info":
				sev, want = 2, fmt.Sprintf(op.format(), op.args()...)
				l.Info(op.format(), op.args()...)
			case "debug":
				sev, want = 3, fmt.Sprintf(op.format(), op.args()...)
				l.Debug(op.format(), op.args()...)
			case "debugln":
				sev, want = 3, fmt.Sprintln(op.args()...)
				l.Debugln(op.args()...)
			}
		})
		if err != nil {
			panic(err)
		}
		if fail != nil {
			return fail
		}
		if c.Null || sev > level {
			hidden++
			if got != "" {
				return fmt.Errorf("call %d (%s) at level %v prints %q, want nothing", i, op.Op, levels[level], got)
			}
			continue
		}
		shown++
		if op.Op == "error" && strings.Count(got, want) == 1 {
			continue
		}
		if op.Op == "error" || got != want {
			return fmt.Errorf("call %d (%s) at level %v prints %q, want %q", i, op.Op, levels[level], got, want)
		}
	}
	if shown > 0 && hidden > 0 {
		o.Label("some printed, some not")
	}
	if shown+hidden < 2 {
		o.Trivial()
	}
	return nil
}

// ---- C28

// errOp is a step in the life of an error.
type errOp struct {
	Op   string // new, wrap, update, wrapnil, updatenil
	Site int
	Text string
	Arg  int
	Deep int // calls between
}

type errCase struct{ Ops []errOp }

func genErr(t *rapid.T) errCase {
	many := 0
	if rapid.IntRange(0, 19).Draw(t, "longLife") == 0 {
		many = rapid.IntRange(10, 200).Draw(t, "updates")
	}
	ops := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) errOp {
		return errOp{Op: rapid.SampledFrom([]string{"new", "wrap", "update", "update", "update", "update", "wrapnil", "updatenil", "other"}).Draw(t, "op"),
			Site: rapid.IntRange(0, 2).Draw(t, "site"), Text: rapid.StringN(0, 8, 16).Draw(t, "text"), Arg: rapid.IntRange(-9, 9).Draw(t, "arg"),
			Deep: rapid.IntRange(0, 3).Draw(t, "deep")}
	}), 1, 40).Draw(t, "ops")
	for ; many > 0; many-- {
		ops = append(ops, errOp{Op: "update", Site: many % 3})
	}
	return errCase{ops}
}

// here is the position of its caller.
func here() string {
	_, f, l, _ := runtime.Caller(1)
	return fmt.Sprintf("%s:%d", filepath.Base(f), l)
}

// deeply calls f some calls down.
func deeply(n int, f func()) {
	if n == 0 {
		f()
		return
	}
	deeply(n-1, f)
}

func sameTrace(got, want []string) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if got[i] != want[i] && !strings.HasSuffix(got[i], "/"+want[i]) {
			return false
		}
	}
	return true
}

func runErr(c errCase, o *engine.Obs) error {
	type live struct {
		e     errors.Error
		msg   string
		trace []string
		cause error
	}
	var cur *live
	var kept []*live // earlier errors stay as they were
	grew := false
	for i, op := range c.Ops {
		var e errors.Error
		var at string
		switch op.Op {
		case "new":
			deeply(op.Deep, func() {
				switch op.Site {
				case 0:
					e, at = errors.New("%s/%d", op.Text, op.Arg), here()
				case 1:
					e, at = errors.New("%s/%d", op.Text, op.Arg), here()
				default:
					e, at = errors.New("%s/%d", op.Text, op.Arg), here()
				}
			})
			if cur != nil {
				kept = append(kept, cur)
			}
			cur = &live{e: e, msg: fmt.Sprintf("%s/%d", op.Text, op.Arg), trace: []string{at}}
		case "wrap":
			cause := fmt.Errorf("cause: %w", io.EOF)
			deeply(op.Deep, func() {
				switch op.Site {
				case 0:
					e, at = errors.NewError(cause), here()
				case 1:
					e, at = errors.NewError(cause), here()
				default:
					e, at = errors.NewError(cause), here()
				}
			})
			if cur != nil {
				kept = append(kept, cur)
			}
			cur = &live{e: e, msg: cause.Error(), trace: []string{at}, cause: io.EOF}
		case "update":
			if cur == nil {
				continue
			}
			grew = true
			deeply(op.Deep, func() {
				switch op.Site {
				case 0:
					e, at = errors.Update(cur.e), here()
				case 1:
					e, at = errors.Update(cur.e), here()
				default:
					e, at = errors.Update(cur.e), here()
				}
			})
			cur.e, cur.trace = e, append(cur.trace, at)
		case "other": // an error kept from before is updated too
			if len(kept) == 0 {
				continue
			}
			k := kept[(op.Arg+9)%len(kept)]
			e, at = errors.Update(k.e), here()
			k.e, k.trace = e, append(k.trace, at)
		case "wrapnil":
			if e := errors.NewError(nil); e != nil {
				return fmt.Errorf("wrapping nil gives %v", emsg(e))
			}
			continue
		case "updatenil":
			if e := errors.Update(nil); e != nil {
				return fmt.Errorf("updating nil gives %v", emsg(e))
			}
			continue
		}
		for _, l := range append(append([]*live{}, kept...), cur) {
			if l == nil {
				continue
			}
			if l.e == nil {
				return fmt.Errorf("step %d (%s) loses the error", i, op.Op)
			}
			if emsg(l.e) != l.msg {
				return fmt.Errorf("after step %d (%s) the message is %q, want %q", i, op.Op, emsg(l.e), l.msg)
			}
			if l.cause != nil && !stderrors.Is(l.e.Message, l.cause) {
				return fmt.Errorf("after step %d (%s) the wrapped error is %v", i, op.Op, l.e.Message)
			}
			if !sameTrace(l.e.Stack, l.trace) {
				return fmt.Errorf("after step %d (%s) the trace is %v, want %v", i, op.Op, l.e.Stack, l.trace)
			}
		}
	}
	if !grew {
		o.Trivial()
	}
	return nil
}

type stackOp struct {
	Which int
	Push  bool
	V     int
	Kind  int
	N     int
}

func runStacks(ops []stackOp, o *engine.Obs) error {
	real := []interface {
		Push(interface{})
		Pop() interface{}
	}{asn1.NewStack(), asn1.NewStack()}
	model := make([][]interface{}, 2)
	n := 0
	for i, op := range ops {
		for k := 0; k < op.N; k++ {
			if op.Push {
				var v interface{} = op.V + k
				switch op.Kind {
				case 1:
					v = fmt.Sprint(op.V + k)
				case 2:
					v = &stackOp{V: op.V}
				case 3:
					v = nil
				}
				real[op.Which].Push(v)
				model[op.Which] = append(model[op.Which], v)
				n++
				continue
			}
			var want interface{}
			if m := model[op.Which]; len(m) > 0 {
				want = m[len(m)-1]
				model[op.Which] = m[:len(m)-1]
			}
			if got := real[op.Which].Pop(); got != want {
				return fmt.Errorf("step %d pops %v, want %v", i, got, want)
			}
		}
	}
	if n < 2 {
		o.Trivial()
	}
	for k := range real {
		for j := len(model[k]) - 1; j >= -1; j-- {
			var want interface{}
			if j >= 0 {
				want = model[k][j]
			}
			if got := real[k].Pop(); got != want {
				return fmt.Errorf("finally pops %v, want %v", got, want)
			}
		}
	}
	return nil
}

func init() {
	register(&engine.Property{
		ID:    "C27",
		Title: "Loggers print exactly what their level admits",
		Rule:  "at least two log calls",
		Subs:  []engine.Sub{engine.NewSub("calls", 3000, 60000, genLog, runLog)},
	})
	register(&engine.Property{
		ID:    "C28",
		Title: "Errors keep their message and trace; stacks are LIFO",
		Rule:  "an error is updated at least once; two values or more are pushed",
		Subs: []engine.Sub{
			engine.NewSub("errors", 10000, 200000, genErr, runErr),
			engine.NewSub("stacks", 10000, 200000, func(t *rapid.T) []stackOp {
				return rapid.SliceOfN(rapid.Custom(func(t *rapid.T) stackOp {
					n := rapid.IntRange(1, 4).Draw(t, "n")
					if rapid.IntRange(0, 9).Draw(t, "many") == 0 {
						n = rapid.IntRange(5, 200).Draw(t, "n2")
					}
					return stackOp{rapid.IntRange(0, 1).Draw(t, "which"), rapid.IntRange(0, 2).Draw(t, "push") > 0, rapid.IntRange(-99, 99).Draw(t, "v"), rapid.IntRange(0, 3).Draw(t, "kind"), n}
				}), 1, 40).Draw(t, "ops")
			}, runStacks),
		},
	})
}
