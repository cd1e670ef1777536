package main

import "slices"

// without gives the history as it would be if the property did not matter: the operations which it is about are left
// out. It says whether there were any.
var without = map[string]func(ops []Op) ([]Op, bool){
	"C05": drop("timeout"),
	"C06": func(ops []Op) (out []Op, any bool) {
		out, any = drop("unlock")(ops)
		for i := range out {
			if (out[i].K == "ack" || out[i].K == "nack") && out[i].Lock > 0 {
				out[i].Lock, any = 0, true
			}
		}
		return
	},
	"C08": func(ops []Op) (out []Op, any bool) {
		out, any = drop("remove")(ops)
		for i := range out {
			if out[i].Rm {
				out[i].Rm, any = false, true
			}
		}
		return
	},
	"C02": func(ops []Op) (out []Op, any bool) {
		out, _ = drop()(ops)
		for i := range out {
			if out[i].K == "pull" && (out[i].Min != 0 || out[i].Max != 0 || out[i].Filter != 0) {
				out[i].Min, out[i].Max, out[i].Filter, any = 0, 0, 0, true
			}
		}
		return
	},
	"C12": drop("ttl"),
	"C13": drop("maxel"),
	"C14": drop("editq"),
	"C15": drop("losecache"),
	// what follows the last flush, on a new instance
	"C22": func(ops []Op) ([]Op, bool) {
		for i := len(ops) - 1; i >= 0; i-- {
			if ops[i].K != "flush" {
				continue
			}
			var off int64
			for _, op := range ops[:i+1] {
				switch op.K {
				case "advance":
					off += op.D
				case "timeout", "unlock", "ttl", "maxel", "recovery", "metrics":
					off += 2
				}
			}
			return append([]Op{{K: "advance", D: off}}, ops[i+1:]...), true
		}
		return nil, false
	},
}

func drop(kinds ...string) func(ops []Op) ([]Op, bool) {
	return func(ops []Op) (out []Op, any bool) {
		for _, op := range ops {
			if slices.Contains(kinds, op.K) {
				any = true
				continue
			}
			out = append(out, op)
		}
		return
	}
}

// runAttributed runs a history. A divergence which the model attributes to other properties is a violation of the one
// being checked too, if it disappears with the operations this one is about.
func runAttributed(h *H, hist Hist, opt histOpts) *run {
	var r *run
	opt.started = func(x *run) { r = x }
	defer func() {
		p := recover()
		if p == nil {
			return
		}
		f, ok := p.(failure)
		cut := without[h.Prop]
		if ok && (h.Prop == "C19" || h.Prop == "C21") && !slices.Contains(f.props, h.Prop) {
			// the backend differs from the contract, if the same history is all right with those in memory
			o := opt
			o.started, o.drain = nil, opt.drain && len(r.done) >= len(hist.Ops)
			if runQuiet(&H{Prop: h.Prop, Tier: h.Tier, Dir: h.Dir, labels: map[string]bool{}}, Hist{Queues: hist.Queues, IDs: hist.IDs, Ops: append([]Op{}, r.done...)}, o) != nil {
				f.props = append(f.props, h.Prop)
				panic(f)
			}
		}
		if !ok || cut == nil || slices.Contains(f.props, h.Prop) || slices.Contains(f.props, "*") {
			panic(p)
		}
		done := append([]Op{}, r.done...)
		if ops, any := cut(done); any {
			o := opt
			o.started, o.drain = nil, opt.drain && len(r.done) >= len(hist.Ops)
			if runQuiet(&H{Prop: h.Prop, Tier: h.Tier, Dir: h.Dir, labels: map[string]bool{}}, Hist{Backend: hist.Backend, Queues: hist.Queues, IDs: hist.IDs, Ops: ops}, o) != nil {
				f.props = append(f.props, h.Prop)
			}
		}
		panic(f)
	}()
	return runHist(h, hist, opt)
}
