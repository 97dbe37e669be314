package conc

import (
	"context"
	"fmt"
	"io"

	"birchmc/engine"
	"birchmc/mcrt"
	mctx "birchmc/mcrt/mctx"
	"birchmc/mcrt/mnet"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/mrpc"
	"github.com/tychoish/birch/x/mrpc/model"
	"github.com/tychoish/birch/x/mrpc/mongowire"
)

// scopeOK is the reference for which scopes may be registered: commands need a
// name; the legacy operations need a namespace (kill cursors: must not have
// one) and no command; replies are not requests.
func scopeOK(s mongowire.OpScope) bool {
	switch s.Type {
	case mongowire.OP_COMMAND, mongowire.OP_MSG:
		return s.Command != ""
	case mongowire.OP_KILL_CURSORS:
		return s.Context == "" && s.Command == ""
	case mongowire.OP_DELETE, mongowire.OP_UPDATE, mongowire.OP_QUERY, mongowire.OP_INSERT, mongowire.OP_GET_MORE:
		return s.Context != "" && s.Command == ""
	}
	return false
}

// refRegistry is the reference registry: handlers are numbers.
type refRegistry map[mongowire.OpScope]int

func (r refRegistry) add(s mongowire.OpScope, h int) bool {
	if _, ok := r[s]; ok || h == 0 || !scopeOK(s) {
		return false
	}
	r[s] = h
	return true
}

func (r refRegistry) get(s mongowire.OpScope) int {
	if h, ok := r[s]; ok {
		return h
	}
	s.Context = ""
	return r[s]
}

var allTypes = []mongowire.OpType{
	mongowire.OP_REPLY, mongowire.OP_UPDATE, mongowire.OP_INSERT, mongowire.OP_QUERY, mongowire.OP_GET_MORE,
	mongowire.OP_DELETE, mongowire.OP_KILL_CURSORS, mongowire.OP_COMMAND, mongowire.OP_COMMAND_REPLY, mongowire.OP_MSG, 0, 1000, -1,
}

func allScopes(types []mongowire.OpType, contexts, commands []string) []mongowire.OpScope {
	var out []mongowire.OpScope
	for _, t := range types {
		for _, x := range contexts {
			for _, m := range commands {
				out = append(out, mongowire.OpScope{Type: t, Context: x, Command: m})
			}
		}
	}
	return out
}

// m04Handler makes a handler that says which one it is.
func m04Handler(h int) mrpc.HandlerFunc {
	if h == 0 {
		return nil
	}
	return func(_ context.Context, w io.Writer, _ mongowire.Message) { _, _ = w.Write([]byte{byte(h)}) }
}

type said int

func (w *said) Write(b []byte) (int, error) { *w = said(b[0]); return len(b), nil }

// m04Get looks a scope up, and calls the handler to learn which one it is.
func m04Get(r *mrpc.OperationRegistry, s mongowire.OpScope) (int, error) {
	q := s
	f, ok := r.Get(&q)
	if q != s {
		return 0, fmt.Errorf("looking up %+v changed it to %+v", s, q)
	}
	if ok != (f != nil) {
		return 0, fmt.Errorf("looking up %+v: found %v, but handler present %v", s, ok, f != nil)
	}
	if !ok {
		return 0, nil
	}
	var w said
	f(context.Background(), &w, nil)
	return int(w), nil
}

// m04Histories: all histories of registrations (each followed by a lookup of
// every scope).
func m04Histories(depth int, scopes []mongowire.OpScope, nils bool) func(c *engine.Chooser) {
	return func(c *engine.Chooser) {
		var r mrpc.OperationRegistry
		reg := refRegistry{}
		lookups := func() {
			var sig []int
			for _, s := range scopes {
				got, err := m04Get(&r, s)
				if err != nil {
					c.Fail("%v", err)
				}
				want := reg.get(s)
				if got != want {
					c.Fail("lookup of %+v found handler %d, expected %d (0: none); registered: %v", s, got, want, reg)
				}
				sig = append(sig, got)
			}
			c.State(fmt.Sprint(sig))
			c.Step()
		}
		lookups()
		for i := range depth {
			s := engine.Pick(c, scopes)
			h := i + 1
			if nils && c.Bool() {
				h = 0
			}
			got, want := r.Add(s, m04Handler(h)) == nil, reg.add(s, h)
			if got != want {
				c.Fail("registering %+v (handler %d) succeeded: %v, expected %v; registered before: %v", s, h, got, want, reg)
			}
			if want {
				c.NonTrivial()
			}
			lookups()
		}
	}
}

// m04Op is one operation of a concurrent history.
type m04Op struct {
	add      bool
	s        mongowire.OpScope
	h        int
	res      int // handler found, or 1 when added
	beg, end int
}

func (o m04Op) String() string {
	if o.add {
		return fmt.Sprintf("Add(%v,%d)=%d[%d,%d]", o.s, o.h, o.res, o.beg, o.end)
	}
	return fmt.Sprintf("Get(%v)=%d[%d,%d]", o.s, o.res, o.beg, o.end)
}

// m04Linear searches for an order of the operations that respects real time
// and gives the results seen.
func m04Linear(ops []m04Op, used uint, model refRegistry) bool {
	if used == 1<<len(ops)-1 {
		return true
	}
next:
	for i, o := range ops {
		if used>>i&1 == 1 {
			continue
		}
		for j, p := range ops {
			if used>>j&1 == 0 && j != i && p.end < o.beg {
				continue next
			}
		}
		m := refRegistry{}
		for k, v := range model {
			m[k] = v
		}
		res := 0
		if o.add {
			if m.add(o.s, o.h) {
				res = 1
			}
		} else {
			res = m.get(o.s)
		}
		if res == o.res && m04Linear(ops, used|1<<i, m) {
			return true
		}
	}
	return false
}

// m04Schedules: threads of registrations and lookups.
func m04Schedules(threads, ops, preempt int) func(c *engine.Chooser) {
	a := mongowire.OpScope{Type: mongowire.OP_COMMAND, Context: "db", Command: "x"}
	b := mongowire.OpScope{Type: mongowire.OP_COMMAND, Command: "x"}
	return func(c *engine.Chooser) {
		plan := make([][]m04Op, threads)
		h := 0
		for i := range plan {
			for range ops {
				o := m04Op{s: a}
				if c.Bool() {
					o.s = b
				}
				if c.Bool() {
					h++
					o.add, o.h = true, h
				}
				plan[i] = append(plan[i], o)
			}
		}
		if h == 0 {
			c.Skip()
		}
		explore(c, preempt, func(x *mcrt.Exec) {
			var r mrpc.OperationRegistry
			errs := make([]error, threads)
			for i := range plan {
				x.Go(fmt.Sprintf("user%d", i), func() {
					for k := range plan[i] {
						o := &plan[i][k]
						o.beg = mcrt.Stamp()
						if o.add {
							if r.Add(o.s, m04Handler(o.h)) == nil {
								o.res = 1
							}
						} else if o.res, errs[i] = m04Get(&r, o.s); errs[i] != nil {
							return
						}
						o.end = mcrt.Stamp()
					}
				})
			}
			finish(c, x)
			var all []m04Op
			for i := range plan {
				if errs[i] != nil {
					c.Fail("%v", errs[i])
				}
				all = append(all, plan[i]...)
			}
			c.Steps(len(all))
			if !m04Linear(all, 0, refRegistry{}) {
				c.Fail("no order of the operations explains their results: %v", all)
			}
			c.State(fmt.Sprint(all))
		})
	}
}

// m04Msg is a request and the scope it has.
type m04Msg struct {
	msg mongowire.Message
	s   mongowire.OpScope
}

func m04Requests() []m04Msg {
	d := func(k string, more ...*birch.Element) *birch.Document {
		return birch.DC.Elements(append([]*birch.Element{birch.EC.Int32(k, 1)}, more...)...)
	}
	db := func(s string) *birch.Element { return birch.EC.String("$db", s) }
	op := func(doc *birch.Document, items ...model.SequenceItem) mongowire.Message {
		return mongowire.NewOpMessage(false, []birch.Document{*doc}, items...)
	}
	S := func(t mongowire.OpType, x, m string) mongowire.OpScope {
		return mongowire.OpScope{Type: t, Context: x, Command: m}
	}
	e := birch.DC.Make(0)
	return []m04Msg{
		{mongowire.NewQuery("db.c", 0, 0, 0, d("x"), nil), S(mongowire.OP_QUERY, "db.c", "")},
		{mongowire.NewQuery("db.d", 0, 0, 0, d("x"), nil), S(mongowire.OP_QUERY, "db.d", "")},
		{mongowire.NewQuery("db.$cmd", 0, 0, 0, d("x"), nil), S(mongowire.OP_COMMAND, "db", "x")},
		{mongowire.NewQuery("eb.$cmd", 0, 0, 0, d("y"), nil), S(mongowire.OP_COMMAND, "eb", "y")},
		{mongowire.NewCommand("db", "x", d("x"), e, nil), S(mongowire.OP_COMMAND, "db", "x")},
		{mongowire.NewCommand("", "x", d("x"), e, nil), S(mongowire.OP_COMMAND, "", "x")},
		{mongowire.NewCommand("db", "y", d("x"), e, nil), S(mongowire.OP_COMMAND, "db", "y")},
		{op(d("x", db("db"))), S(mongowire.OP_MSG, "db", "x")},
		{op(d("x", db("eb"))), S(mongowire.OP_MSG, "eb", "x")},
		{op(d("x")), S(mongowire.OP_MSG, "", "x")},
		{op(d("y", db("db"))), S(mongowire.OP_MSG, "db", "y")},
		{op(d("x", db("db")), model.SequenceItem{Identifier: "y", Documents: []birch.Document{*d("z")}}), S(mongowire.OP_MSG, "db", "x")},
		{mongowire.NewInsert("db.c", d("x")), S(mongowire.OP_INSERT, "db.c", "")},
		{mongowire.NewUpdate("db.c", 0, d("x"), d("y")), S(mongowire.OP_UPDATE, "db.c", "")},
		{mongowire.NewDelete("db.c", 0, d("x")), S(mongowire.OP_DELETE, "db.c", "")},
		{mongowire.NewGetMore("db.c", 1, 2), S(mongowire.OP_GET_MORE, "db.c", "")},
		{mongowire.NewKillCursors(1), S(mongowire.OP_KILL_CURSORS, "", "")},
		{mongowire.NewReply(0, 0, 0, 1, []birch.Document{*d("x")}), mongowire.OpScope{}},
	}
}

// m04Dispatch: every request sent to a service with every small set of
// registered scopes.
func m04Dispatch(regs int) func(c *engine.Chooser) {
	contexts, commands := []string{"", "db", "db.c", "eb"}, []string{"", "x", "y"}
	var valid []mongowire.OpScope
	for _, s := range allScopes(allTypes, contexts, commands) {
		if scopeOK(s) {
			valid = append(valid, s)
		}
	}
	return func(c *engine.Chooser) {
		m := engine.Pick(c, m04Requests())
		svc := mrpc.NewBasicService("host", 1)
		reg := refRegistry{}
		from := 0
		for i := range regs {
			k := from + c.Choose(len(valid)+1-from)
			if k == len(valid) {
				break
			}
			s := valid[k]
			from = k + 1
			if err := svc.RegisterOperation(&s, m04Handler(i+1)); err != nil {
				c.Fail("registering %+v: %v", s, err)
			}
			reg.add(s, i+1)
			// mutating the scope afterwards changes nothing
			s = mongowire.OpScope{}
		}
		want := reg.get(m.s)
		if m.s == (mongowire.OpScope{}) {
			want = 0
		}
		if want > 0 {
			c.NonTrivial()
		}
		explore(c, 0, func(x *mcrt.Exec) {
			x.DelayBound = true // one schedule
			mnet.Reset()
			ctx, cancel := mctx.WithCancel(context.Background())
			var runErr error
			var got []byte
			x.Go("service", func() { runErr = svc.Run(ctx) })
			x.Go("client", func() {
				mcrt.Settle()
				cl, _, err := mnet.Current().Dial("client")
				if err != nil {
					panic(err)
				}
				if _, err := cl.Write(m.msg.Serialize()); err != nil {
					panic(err)
				}
				mcrt.Settle()
				_ = cl.Close()
				mcrt.Settle()
				got = cl.Drain()
				cancel()
			})
			finish(c, x)
			if runErr != nil {
				c.Fail("Run: %v", runErr)
			}
			h := 0
			if len(got) > 1 {
				c.Fail("several handlers were called for %+v: %v", m.s, got)
			} else if len(got) == 1 {
				h = int(got[0])
			}
			if h != want {
				c.Fail("request %+v reached handler %d, expected %d (0: none); registered: %v", m.s, h, want, reg)
			}
			c.Step()
			c.State(fmt.Sprint(m.s, reg))
		})
	}
}

var m04 = &engine.Property{
	ID: "M04", Level: "model_checking",
	Assume: []string{"the network is replaced by in-memory connections"},
	Families: func(tier string) []engine.Family {
		small := allScopes([]mongowire.OpType{mongowire.OP_COMMAND, mongowire.OP_MSG, mongowire.OP_QUERY, mongowire.OP_KILL_CURSORS}, []string{"", "a", "b"}, []string{"", "x", "y"})
		all := allScopes(allTypes, []string{"", "a", "a.b"}, []string{"", "x"})
		depth, regs, ops, pre := 3, 2, 3, 3
		if tier == "thorough" {
			depth, regs, ops, pre = 4, 3, 4, 4
		}
		return []engine.Family{
			{Name: "histories", Rule: "every history", Bounds: fmt.Sprintf("%d registrations out of %d scopes, every scope looked up after each", depth, len(small)), Split: 2, CutPrefix: true, Run: m04Histories(depth, small, false)},
			{Name: "kinds", Rule: "every history", Bounds: fmt.Sprintf("2 registrations (with or without a handler) out of %d scopes of every type, every scope looked up after each", len(all)), Split: 2, CutPrefix: true, Run: m04Histories(2, all, true)},
			{Name: "dispatch", Rule: "every case", Bounds: fmt.Sprintf("%d requests x all sets of up to %d registered scopes", len(m04Requests()), regs), Split: 2, Run: m04Dispatch(regs)},
			{Name: "schedules-2", Rule: "every schedule", Bounds: fmt.Sprintf("2 threads of %d operations each (add or get, specific or default scope), %d preemptions", ops, pre), Run: m04Schedules(2, ops, pre)},
			{Name: "schedules-3", Rule: "every schedule", Bounds: fmt.Sprintf("3 threads of 1 operation each, %d preemptions", pre), Run: m04Schedules(3, 1, pre)},
		}
	},
}
