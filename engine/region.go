package main

// If-conversion: acyclic, side-effect-free regions are merged into ite terms instead of forking.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type region struct {
	order []*ssa.BasicBlock // topological, excluding head and join
	join  *ssa.BasicBlock   // nil: every block of the region ends in return
}

func mergeable(t types.Type) bool {
	if t == nil {
		return false
	}
	if _, _, ok := intInfo(t); ok {
		return true
	}
	return isBool(t)
}

func pureInstr(i ssa.Instruction, depth int) bool {
	switch x := i.(type) {
	case *ssa.BinOp:
		if !mergeable(x.X.Type()) || !mergeable(x.Y.Type()) {
			return false
		}
		switch x.Op {
		case token.QUO, token.REM:
			c, ok := x.Y.(*ssa.Const)
			return ok && c.Int64() != 0
		case token.SHL, token.SHR:
			if _, ok := x.Y.(*ssa.Const); ok {
				return true
			}
			_, s, _ := intInfo(x.Y.Type())
			return !s
		}
		return true
	case *ssa.UnOp:
		switch x.Op {
		case token.SUB, token.XOR, token.NOT:
			return mergeable(x.X.Type())
		}
		return false
	case *ssa.Convert:
		return mergeable(x.X.Type()) && mergeable(x.Type())
	case *ssa.ChangeType:
		return mergeable(x.X.Type()) && mergeable(x.Type())
	case *ssa.Phi:
		return mergeable(x.Type())
	case *ssa.If, *ssa.Jump:
		return true
	case *ssa.DebugRef:
		return true
	case *ssa.Call:
		if depth > 3 {
			return false
		}
		f := x.Call.StaticCallee()
		return f != nil && mergeable(x.Type()) && pureFunc(f, depth+1)
	}
	return false
}

func pureFunc(f *ssa.Function, depth int) bool {
	if len(f.Blocks) == 0 || len(f.Blocks) > 12 || f.Recover != nil || len(f.FreeVars) > 0 {
		return false
	}
	if f.Pkg != nil && isIntrinsicName(f.String()) {
		return false
	}
	for _, p := range f.Params {
		if !mergeable(p.Type()) {
			return false
		}
	}
	if f.Signature.Results().Len() != 1 {
		return false
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if r, ok := i.(*ssa.Return); ok {
				_ = r
				continue
			}
			if c, ok := i.(*ssa.Call); ok && c.Call.StaticCallee() == f {
				return false
			}
			if !pureInstr(i, depth) {
				return false
			}
		}
	}
	// acyclic
	state := map[*ssa.BasicBlock]int{}
	var dfs func(b *ssa.BasicBlock) bool
	dfs = func(b *ssa.BasicBlock) bool {
		state[b] = 1
		for _, s := range b.Succs {
			if state[s] == 1 || (state[s] == 0 && !dfs(s)) {
				return false
			}
		}
		state[b] = 2
		return true
	}
	return dfs(f.Blocks[0])
}

func findRegions(fn *ssa.Function) map[*ssa.BasicBlock]*region {
	r := map[*ssa.BasicBlock]*region{}
	if len(fn.Blocks) > 400 {
		return r
	}
	pure := map[*ssa.BasicBlock]int{} // 1 pure (jump/if), 2 pure return, 3 impure
	cls := func(b *ssa.BasicBlock) int {
		if v, ok := pure[b]; ok {
			return v
		}
		v := 1
		for _, i := range b.Instrs {
			if ret, ok := i.(*ssa.Return); ok {
				v = 2
				for _, x := range ret.Results {
					if !mergeable(x.Type()) {
						v = 3
					}
				}
				if len(ret.Results) == 0 {
					v = 3
				}
				break
			}
			if !pureInstr(i, 0) {
				v = 3
				break
			}
		}
		pure[b] = v
		return v
	}
	try := func(B, J *ssa.BasicBlock) *region {
		seen := map[*ssa.BasicBlock]bool{}
		var post []*ssa.BasicBlock
		onst := map[*ssa.BasicBlock]bool{}
		ok := true
		var dfs func(b *ssa.BasicBlock)
		dfs = func(b *ssa.BasicBlock) {
			if !ok || b == J {
				return
			}
			if onst[b] || b == B {
				ok = false
				return
			}
			if seen[b] {
				return
			}
			seen[b] = true
			if len(seen) > 10 {
				ok = false
				return
			}
			c := cls(b)
			if c == 3 || (J != nil && c == 2) {
				ok = false
				return
			}
			onst[b] = true
			for _, s := range b.Succs {
				dfs(s)
			}
			onst[b] = false
			post = append(post, b)
		}
		for _, s := range B.Succs {
			dfs(s)
		}
		if !ok {
			return nil
		}
		for b := range seen {
			for _, p := range b.Preds {
				if p != B && !seen[p] {
					return nil
				}
			}
		}
		if J != nil {
			for _, i := range J.Instrs {
				ph, isPhi := i.(*ssa.Phi)
				if !isPhi {
					break
				}
				if !mergeable(ph.Type()) {
					return nil
				}
			}
		}
		rg := &region{join: J}
		for i := len(post) - 1; i >= 0; i-- {
			rg.order = append(rg.order, post[i])
		}
		return rg
	}
	for _, B := range fn.Blocks {
		if len(B.Instrs) == 0 {
			continue
		}
		if _, ok := B.Instrs[len(B.Instrs)-1].(*ssa.If); !ok {
			continue
		}
		// candidate joins: blocks within a few steps
		var cands []*ssa.BasicBlock
		dist := map[*ssa.BasicBlock]int{}
		q := []*ssa.BasicBlock{}
		for _, s := range B.Succs {
			if _, ok := dist[s]; !ok {
				dist[s] = 1
				q = append(q, s)
			}
		}
		for len(q) > 0 && len(cands) < 14 {
			b := q[0]
			q = q[1:]
			cands = append(cands, b)
			for _, s := range b.Succs {
				if _, ok := dist[s]; !ok {
					dist[s] = dist[b] + 1
					q = append(q, s)
				}
			}
		}
		var best *region
		for _, J := range cands {
			if J == B {
				continue
			}
			if rg := try(B, J); rg != nil && (best == nil || len(rg.order) < len(best.order)) {
				best = rg
			}
		}
		if best == nil {
			best = try(B, nil)
		}
		if best != nil {
			r[B] = best
		}
	}
	return r
}

// evalRegion evaluates a merged region starting at fr.block (whose If condition is cond).
// Returns the join block to continue with, or nil when the region returned (fr.result set).
func (fr *Frame) evalRegion(rg *region, cond *Term) *ssa.BasicBlock {
	m := fr.m
	B := fr.block
	type edge struct{ from, to *ssa.BasicBlock }
	eg := map[edge]*Term{}
	addE := func(f, t *ssa.BasicBlock, g *Term) {
		k := edge{f, t}
		if o, ok := eg[k]; ok {
			g = m.c.Or(o, g)
		}
		eg[k] = g
	}
	addE(B, B.Succs[0], cond)
	addE(B, B.Succs[1], m.c.Not(cond))
	phi := func(b *ssa.BasicBlock) {
		type asg struct {
			p *ssa.Phi
			v Value
		}
		var as []asg
		for _, i := range b.Instrs {
			p, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			var acc *Term
			for k, pr := range b.Preds {
				g, ok := eg[edge{pr, b}]
				if !ok || g.isFalse() {
					continue
				}
				v := fr.val(p.Edges[k]).(*Term)
				if acc == nil {
					acc = v
				} else {
					acc = m.c.Ite(g, v, acc)
				}
			}
			if acc == nil {
				acc = m.zero(p.Type()).(*Term)
			}
			as = append(as, asg{p, acc})
		}
		for _, a := range as {
			fr.set(a.p, a.v)
		}
	}
	type retv struct {
		g  *Term
		vs []Value
	}
	var rets []retv
	for _, b := range rg.order {
		g := m.c.F
		for _, p := range b.Preds {
			if x, ok := eg[edge{p, b}]; ok {
				g = m.c.Or(g, x)
			}
		}
		phi(b)
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.Jump:
				addE(b, b.Succs[0], g)
			case *ssa.If:
				c := fr.val(x.Cond).(*Term)
				addE(b, b.Succs[0], m.c.And(g, c))
				addE(b, b.Succs[1], m.c.And(g, m.c.Not(c)))
			case *ssa.Return:
				r := retv{g: g}
				for _, y := range x.Results {
					r.vs = append(r.vs, fr.val(y))
				}
				rets = append(rets, r)
			default:
				fr.pos = i.Pos()
				fr.instr(i)
			}
		}
	}
	if rg.join != nil {
		phi(rg.join)
		return rg.join
	}
	var acc []Value
	for _, r := range rets {
		if acc == nil {
			acc = append(acc, r.vs...)
			continue
		}
		for i := range acc {
			acc[i] = m.c.Ite(r.g, r.vs[i].(*Term), acc[i].(*Term))
		}
	}
	if len(acc) == 1 {
		fr.result = acc[0]
	} else {
		fr.result = TupleV(acc)
	}
	return nil
}
