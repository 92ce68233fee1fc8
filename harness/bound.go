package main

import "strings"

// tooMany tells whether a roll in the text may ask for so many dice that the
// process runs out of memory (a known finding); such texts are not executed.
func tooMany(s string) bool {
	for i := 1; i < len(s); i++ {
		if strings.IndexByte("dDbBrRuU", s[i]) < 0 {
			continue
		}
		e := i - 1
		b := e
		switch {
		case s[e] == ')' || s[e] == ']':
			depth := 0
			for ; b >= 0; b-- {
				if s[b] == ')' || s[b] == ']' {
					depth++
				} else if s[b] == '(' || s[b] == '[' {
					depth--
					if depth == 0 {
						break
					}
				}
			}
			if b < 0 {
				continue
			}
		case digit(s[e]):
			for b > 0 && digit(s[b-1]) {
				b--
			}
		default:
			continue
		}
		p := bounder{s: s[b : e+1]}
		if p.sum() > 2e6 {
			return true
		}
	}
	return false
}

func digit(c byte) bool { return c >= '0' && c <= '9' }

// bounder bounds the magnitude of an expression from above.
type bounder struct {
	s string
	i int
}

func (p *bounder) at() byte {
	if p.i < len(p.s) {
		return p.s[p.i]
	}
	return 0
}

func (p *bounder) sum() float64 {
	v := p.product()
	for p.at() == '+' || p.at() == '-' {
		p.i++
		v += p.product()
	}
	return v
}

func (p *bounder) product() float64 {
	v := p.primary()
	for p.at() == '*' || p.at() == '/' {
		mul := p.at() == '*'
		p.i++
		w := p.primary()
		if mul {
			v *= w
		} else {
			v++
		}
		if strings.IndexByte("rRuU", p.at()) >= 0 && p.at() != 0 {
			p.i++
		}
	}
	return v
}

func (p *bounder) primary() float64 {
	switch c := p.at(); {
	case c == '+' || c == '-':
		p.i++
		return p.primary()
	case c == '(':
		p.i++
		v := p.sum()
		p.i++
		return v
	case c == '[':
		p.i++
		v := p.sum()
		p.i += 3
		v += p.sum()
		p.i++
		return v
	}
	v := 0.0
	for digit(p.at()) {
		v = v*10 + float64(p.at()-'0')
		p.i++
	}
	return v
}
