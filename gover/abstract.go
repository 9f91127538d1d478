package main

// A second rendering of a query in which strings are values of an
// uninterpreted sort: only equality, lengths and the distinctness of literals
// are kept. It is weaker than the query itself, so "unsat" carries over and
// "sat" says nothing.

import (
	"fmt"
	"sort"
	"strings"
)

type absState struct {
	lits map[string]string
	ops  map[string]string // name -> declaration
	post []string          // facts about the ground terms
}

var absStr *absState

func (s *absState) lit(v string) string {
	if n, ok := s.lits[v]; ok {
		return n
	}
	n := fmt.Sprintf("gs!%d", len(s.lits))
	s.lits[v] = n
	return n
}

func (s *absState) op(t *Term, a []string) string {
	if t.S == "str.++" {
		r := a[len(a)-1]
		for i := len(a) - 2; i >= 0; i-- {
			n := "(gstr.cat " + a[i] + " " + r + ")"
			if !t.bound {
				s.post = append(s.post, fmt.Sprintf("(= (gstr.len %s) (+ (gstr.len %s) (gstr.len %s)))", n, a[i], r))
				s.lenFact(n)
				s.lenFact(a[i])
				s.lenFact(r)
			}
			r = n
		}
		return r
	}
	str := t.Sort == StringS
	for _, x := range t.Args {
		str = str || x.Sort == StringS
	}
	if !str {
		return "(" + t.S + " " + strings.Join(a, " ") + ")"
	}
	n := "g" + t.S
	if n == "gstr.len" {
		if !t.bound {
			s.lenFact(a[0])
		}
		return "(gstr.len " + a[0] + ")"
	}
	var as []string
	for _, x := range t.Args {
		as = append(as, x.Sort.Name)
	}
	n = strings.NewReplacer("(", "", ")", "", " ", ".").Replace(n)
	s.ops[n] = fmt.Sprintf("(declare-fun %s (%s) %s)\n", n, strings.Join(as, " "), t.Sort.Name)
	return "(" + n + " " + strings.Join(a, " ") + ")"
}

func (s *absState) lenFact(a string) {
	s.post = append(s.post, fmt.Sprintf("(and (>= (gstr.len %s) 0) (= (= (gstr.len %s) 0) (= %s %s)))", a, a, a, s.lit("")))
}

// RenderAbs renders with strings abstracted; "" when there are no strings.
func RenderAbs(fs []*Term) string {
	absStr = &absState{lits: map[string]string{}, ops: map[string]string{}}
	defer func() { absStr = nil }()
	body := Render(fs, nil)
	if !strings.Contains(body, "String") {
		return ""
	}
	var pre strings.Builder
	pre.WriteString("(set-logic ALL)\n(declare-sort GStr 0)\n(declare-fun gstr.len (GStr) Int)\n(declare-fun gstr.cat (GStr GStr) GStr)\n")
	var ls []string
	absStr.lit("")
	for v := range absStr.lits {
		ls = append(ls, v)
	}
	sort.Strings(ls)
	var names []string
	for _, v := range ls {
		fmt.Fprintf(&pre, "(declare-const %s GStr)\n(assert (= (gstr.len %s) %d))\n", absStr.lits[v], absStr.lits[v], len(v))
		names = append(names, absStr.lits[v])
	}
	if len(names) > 1 {
		fmt.Fprintf(&pre, "(assert (distinct %s))\n", strings.Join(names, " "))
	}
	for _, n := range sortedKeys(absStr.ops) {
		pre.WriteString(absStr.ops[n])
	}
	var post strings.Builder
	seen := map[string]bool{}
	for _, f := range absStr.post {
		if !seen[f] {
			seen[f] = true
			post.WriteString("(assert " + f + ")\n")
		}
	}
	body = strings.TrimPrefix(body, "(set-logic ALL)\n")
	body = strings.TrimSuffix(body, "(check-sat)\n")
	return renameString(pre.String()+body+post.String()) + "(check-sat)\n"
}

// renameString replaces the sort String by GStr outside quoted symbols.
func renameString(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		c := s[i]
		if c == '|' {
			j := strings.IndexByte(s[i+1:], '|')
			b.WriteString(s[i : i+j+2])
			i += j + 2
			continue
		}
		if strings.IndexByte(" ()\n", c) < 0 {
			j := i
			for j < len(s) && strings.IndexByte(" ()\n|", s[j]) < 0 {
				j++
			}
			if s[i:j] == "String" {
				b.WriteString("GStr")
			} else {
				b.WriteString(s[i:j])
			}
			i = j
			continue
		}
		b.WriteByte(c)
		i++
	}
	return b.String()
}
