// Package ref holds the reference models, written from PAGINATE_SPEC.md and the Kubernetes API
// conventions, independently of the code under check.
package ref

import (
	"errors"
	"sort"
	"strconv"
	"strings"

	"k8s.io/apimachinery/pkg/labels"
)

// Split splits a search text into its conditions: a single ';' separates, ';;' is a literal ';'.
func Split(s string) []string {
	var parts []string
	var cur strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] != ';' {
			cur.WriteByte(s[i])
			continue
		}
		if i+1 < len(s) && s[i+1] == ';' {
			cur.WriteByte(';')
			i++
			continue
		}
		parts = append(parts, cur.String())
		cur.Reset()
	}
	return append(parts, cur.String())
}

// Join is the inverse of Split for conditions that contain no ambiguity.
func Join(parts []string) string {
	r := make([]string, len(parts))
	for i, p := range parts {
		r[i] = strings.ReplaceAll(p, ";", ";;")
	}
	return strings.Join(r, ";")
}

const Adv = "__ckube_as__:"

// ErrSearch is what a malformed condition or unknown key yields.
var ErrSearch = errors.New("malformed search")

// Cond evaluates one condition on an index map.
func Cond(m map[string]string, cond string) (bool, error) {
	c := strings.TrimSpace(cond)
	if c == "" {
		return true, nil
	}
	if strings.HasPrefix(c, Adv) {
		sel := c[len(Adv):]
		if sel == "" {
			return false, ErrSearch
		}
		return Selector(sel, m)
	}
	if i := strings.Index(c, "="); i >= 0 {
		key, val := c[:i], c[i+1:]
		v, ok := m[key]
		if !ok {
			return false, ErrSearch
		}
		neg := strings.HasPrefix(val, "!")
		val = strings.TrimPrefix(val, "!")
		return contains(v, val) != neg, nil
	}
	neg := strings.HasPrefix(c, "!")
	c = strings.TrimPrefix(c, "!")
	any := false
	for _, v := range m {
		any = any || contains(v, c)
	}
	return any != neg, nil
}

// contains: substring; a surrounding pair of quotes anchors at the ends of the value.
func contains(v, term string) bool { return strings.Contains(`"`+v+`"`, term) }

// Selector evaluates a Kubernetes label selector text; unsupported operators and syntax errors are errors.
func Selector(sel string, m map[string]string) (bool, error) {
	s, err := labels.Parse(sel)
	if err != nil {
		return false, ErrSearch
	}
	return s.Matches(labels.Set(m)), nil
}

// Match evaluates a whole search text.
func Match(m map[string]string, search string) (bool, error) {
	ok := true
	for _, c := range Split(search) {
		r, err := Cond(m, c)
		if err != nil {
			return false, err
		}
		ok = ok && r
	}
	return ok, nil
}

// Obj is what the reference models know of an object.
type Obj struct {
	Index  map[string]string
	Labels map[string]string
	Key    string // cluster/namespace/name
}

// ErrSort is what a malformed sort yields.
var ErrSort = errors.New("malformed sort")

type skey struct {
	key  string
	num  bool
	desc bool
}

// ParseSort parses the documented sort grammar.
func ParseSort(s string) ([]skey, error) {
	var ks []skey
	for _, p := range strings.Split(s, ",") {
		p = strings.TrimSpace(p)
		if p == "" {
			continue
		}
		k := skey{}
		f := strings.Split(p, " ")
		if len(f) > 2 {
			return nil, ErrSort
		}
		if len(f) == 2 {
			switch f[1] {
			case "desc":
				k.desc = true
			case "asc":
			default:
				return nil, ErrSort
			}
		}
		t := strings.Split(f[0], "!")
		if len(t) > 2 {
			return nil, ErrSort
		}
		if len(t) == 2 {
			switch t[1] {
			case "int":
				k.num = true
			case "str":
			default:
				return nil, ErrSort
			}
		}
		k.key = t[0]
		ks = append(ks, k)
	}
	return ks, nil
}

// Sort orders objs by the expression with cluster, namespace, name as the last resort.
func Sort(objs []Obj, expr string) ([]Obj, error) {
	ks, err := ParseSort(expr)
	if err != nil {
		return nil, err
	}
	for _, o := range objs {
		for _, k := range ks {
			v, ok := o.Index[k.key]
			if !ok {
				return nil, ErrSort
			}
			if k.num {
				if f, err := strconv.ParseFloat(v, 64); err != nil || f != f {
					return nil, ErrSort
				}
			}
		}
	}
	for _, k := range []string{"cluster", "namespace", "name"} {
		ks = append(ks, skey{key: k})
	}
	res := append([]Obj(nil), objs...)
	sort.SliceStable(res, func(i, j int) bool {
		for _, k := range ks {
			a, b := res[i].Index[k.key], res[j].Index[k.key]
			c := strings.Compare(a, b)
			if k.num {
				x, _ := strconv.ParseFloat(a, 64)
				y, _ := strconv.ParseFloat(b, 64)
				c = 0
				if x < y {
					c = -1
				} else if x > y {
					c = 1
				}
			}
			if k.desc {
				c = -c
			}
			if c != 0 {
				return c < 0
			}
		}
		return false
	})
	return res, nil
}

// Page cuts a page; page or size zero means everything. beyond is true for a page past the end.
func Page(n int, page, size int64) (from, to int, beyond bool) {
	if page <= 0 || size <= 0 {
		return 0, n, false
	}
	// first index (page-1)*size computed without overflow
	if page-1 > 0 && size > (int64(n)+1)/(page-1)+1 {
		return n, n, true
	}
	f := (page - 1) * size
	if f >= int64(n) {
		return n, n, true
	}
	rest := int64(n) - f
	if rest > size {
		rest = size
	}
	return int(f), int(f + rest), false
}
