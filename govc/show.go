package main

import (
	"fmt"
	"strings"
)

// show prints a term for people.
func (c *Ctx) show(t *Term) string {
	var b strings.Builder
	c.showTo(&b, t, 0)
	return b.String()
}

func (c *Ctx) showTo(b *strings.Builder, t *Term, d int) {
	if b.Len() > 4000 {
		b.WriteString("…")
		return
	}
	switch t.op {
	case "sym":
		b.WriteString(t.name)
	case "num":
		b.WriteString(t.num.RatString())
	case "lit":
		fmt.Fprintf(b, "%q", t.name)
	case "poly":
		b.WriteString("(")
		for i, m := range t.monos {
			if i > 0 {
				b.WriteString(" + ")
			}
			b.WriteString(m.c.RatString())
			for _, f := range m.fs {
				b.WriteString("*")
				c.showTo(b, f, d+1)
			}
		}
		b.WriteString(")")
	default:
		b.WriteString("(" + strings.TrimPrefix(t.op, "app:"))
		for _, a := range t.args {
			b.WriteString(" ")
			c.showTo(b, a, d+1)
		}
		b.WriteString(")")
	}
}
