package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// chanRewriter replaces channel operations by calls of the simulator's
type chanRewriter struct {
	info *types.Info
	text func(ast.Node) string
	add  func(start, end token.Pos, text string)
	used bool
	n    int
	two  map[ast.Node]bool // receive expressions with two results
	skip map[ast.Node]bool // those of select statements
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func recvOf(e ast.Expr) *ast.UnaryExpr {
	if u, ok := unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return u
	}
	return nil
}

func (c *chanRewriter) isChan(e ast.Expr) bool {
	t := c.info.Types[e].Type
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (c *chanRewriter) visit(n ast.Node) {
	if c.two == nil {
		c.two, c.skip = map[ast.Node]bool{}, map[ast.Node]bool{}
	}
	switch n := n.(type) {
	case *ast.AssignStmt:
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
			if u := recvOf(n.Rhs[0]); u != nil {
				c.two[u] = true
			}
		}
	case *ast.ValueSpec:
		if len(n.Names) == 2 && len(n.Values) == 1 {
			if u := recvOf(n.Values[0]); u != nil {
				c.two[u] = true
			}
		}
	case *ast.UnaryExpr:
		if n.Op != token.ARROW || c.skip[n] {
			return
		}
		c.used = true
		name := "Recv"
		if c.two[n] {
			name = "Recv2"
		}
		c.add(n.OpPos, n.X.Pos(), "verifrt."+name+"(")
		c.add(n.End(), n.End(), ")")
	case *ast.SendStmt:
		if c.skip[n] {
			return
		}
		c.used = true
		c.add(n.Pos(), n.Pos(), "verifrt.SendTo(")
		c.add(n.Arrow, n.Arrow+2, ")(")
		c.add(n.End(), n.End(), ")")
	case *ast.CallExpr:
		id, ok := unparen(n.Fun).(*ast.Ident)
		if !ok || id.Name != "close" {
			return
		}
		if _, b := c.info.Uses[id].(*types.Builtin); b {
			c.used = true
			c.add(n.Fun.Pos(), n.Fun.End(), "verifrt.Close")
		}
	case *ast.RangeStmt:
		if !c.isChan(n.X) {
			return
		}
		c.used = true
		c.n++
		x := c.text(n.X)
		k := c.n
		switch {
		case n.Key == nil || c.text(n.Key) == "_":
			c.add(n.For, n.Body.Lbrace+1, fmt.Sprintf("for verifc%d, _, verifok%d := verifrt.Range(%s); ; { _, verifok%d = verifrt.Recv2(verifc%d); if !verifok%d { break };", k, k, x, k, k, k))
		case n.Tok == token.DEFINE:
			v := c.text(n.Key)
			c.add(n.For, n.Body.Lbrace+1, fmt.Sprintf("for verifc%d, %s, verifok%d := verifrt.Range(%s); ; { %s, verifok%d = verifrt.Recv2(verifc%d); if !verifok%d { break };", k, v, k, x, v, k, k, k))
		default:
			v := c.text(n.Key)
			c.add(n.For, n.Body.Lbrace+1, fmt.Sprintf("for verifc%d, verifv%d, verifok%d := verifrt.Range(%s); ; { verifv%d, verifok%d = verifrt.Recv2(verifc%d); if !verifok%d { break }; %s = verifv%d;", k, k, k, x, k, k, k, k, v, k))
		}
	case *ast.SelectStmt:
		c.sel(n)
	}
}

func (c *chanRewriter) sel(n *ast.SelectStmt) {
	c.used = true
	c.n++
	var vars, inits []string
	hasDefault := false
	for _, s := range n.Body.List {
		cc := s.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
			continue
		}
		i := len(vars)
		v := fmt.Sprintf("verifs%d_%d", c.n, i)
		vars = append(vars, v)
		head := fmt.Sprintf("case %d:", i)
		switch m := cc.Comm.(type) {
		case *ast.SendStmt:
			c.skip[m] = true
			inits = append(inits, fmt.Sprintf("verifrt.S(%s)(%s)", c.text(m.Chan), c.text(m.Value)))
		case *ast.ExprStmt:
			u := recvOf(m.X)
			c.skip[u] = true
			inits = append(inits, fmt.Sprintf("verifrt.R(%s)", c.text(u.X)))
		case *ast.AssignStmt:
			u := recvOf(m.Rhs[0])
			c.skip[u] = true
			inits = append(inits, fmt.Sprintf("verifrt.R(%s)", c.text(u.X)))
			var l []string
			for _, e := range m.Lhs {
				l = append(l, c.text(e))
			}
			r := v + ".V"
			if len(l) == 2 {
				r += ", " + v + ".OK"
			}
			head += strings.Join(l, ", ") + " " + m.Tok.String() + " " + r + ";"
		}
		c.add(cc.Case, cc.Colon+1, head)
	}
	hdr := "switch "
	if len(vars) > 0 {
		hdr += strings.Join(vars, ", ") + " := " + strings.Join(inits, ", ") + "; "
	}
	args := append([]string{fmt.Sprint(hasDefault)}, vars...)
	hdr += "verifrt.Select(" + strings.Join(args, ", ") + ") {"
	c.add(n.Select, n.Body.Lbrace+1, hdr)
	if !hasDefault {
		c.add(n.Body.Rbrace, n.Body.Rbrace, "default: panic(\"no case\");")
	}
}
