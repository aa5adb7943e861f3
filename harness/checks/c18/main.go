// C18: index values are the configured function of the object alone.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"strings"
	"text/template"
	"time"

	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	utiljson "k8s.io/apimachinery/pkg/util/json"
	"k8s.io/client-go/util/jsonpath"

	"ckubemc/gen"
	"ckubemc/mc"
	"ckubemc/vrt"
	"ckubemc/world"

	"github.com/DaoCloud/ckube/common/constants"
	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/store/memory"
	"github.com/DaoCloud/ckube/watcher"
)

// exprs is the alphabet of index expressions.
var exprs = []string{
	// the first ones are the core of the larger families
	"{.metadata.labels.app}", "{.spec.replicas}", `{{ .metadata.labels.app | default "none" }}`, `{{ join "-" .metadata.name .metadata.labels.app }}`, `{range .spec.containers[*]}{.name},{end}`, "constant", "{.spec.replicas[0]}", `{{ .spec.none.x }}`, `{{ .spec.replicas | nosuchfunc }}`, "{.metadata.labels", `{.spec.containers[?(@.image=="b")].name}`, `{range .spec.containers[*]}{.name}{.none[0]}{end}`, `{{ range .spec.containers }}{{ .name }};{{ end }}`, `{{ define "t" }}D{{ end }}{{ template "t" }}`,
	// the others
	"{.metadata.name}", "{.metadata.namespace}/{.metadata.name}", "{.metadata.labels}", "{.spec}", "{.none}", "{.metadata.none.deep}", "{.spec.containers[0].image}", "{.spec.containers[-1].name}", "{.spec.containers[*].name}", "{.spec.flag}", "{.spec.ratio}", "{.spec.big}", "{.spec.text}", "{.spec.list[1:]}", "{.spec.list}", "{.metadata.deletionTimestamp}", "{.metadata.annotations.note}", `{.metadata.labels['app']}`, "{.kind}", "{.status.phase}", "x{.metadata.name}y{.spec.replicas}z", "{'literal'}",
	"{{ .metadata.name }}", `{{ .spec.replicas | default "0" }}`, `{{ .spec.none | default "0" }}`, `{{ .metadata.labels.app | quote }}`, `{{ .spec.text | quote }}`, `{{ .spec.replicas | quote }}`, `{{ .spec.none | quote }}`, `{{ if .spec.flag }}yes{{ else }}no{{ end }}`, `{{ with .metadata.labels }}{{ .app }}{{ end }}`, `{{ len .spec.list }}`, `{{ .spec.replicas }}`, `{{ .spec.ratio }}`, `{{ .spec.big }}`, `{{ if gt .spec.replicas 5 }}many{{ else }}few{{ end }}`, `{{ $x := .metadata.name }}{{ $x }}-{{ $x }}`, `{{ index .metadata.labels "app" }}`, `{{ template "t" }}`, "{{", "{{ end }}", "{", "{.a[}", "", " ", "true", "a b", "名", "}}", "a}b",
	`{{ join "," }}`, `{{ join "," .metadata.name .spec.none }}`, `{{ .metadata.labels }}`, `{{ default "d" .metadata.namespace }}`, `partial{{ .metadata.name }}{{ .spec.none.x }}`, `partial{.metadata.name}{.spec.replicas[0]}`,
}

type object struct {
	name string
	mk   func() interface{}
}

func custom(js string) func() interface{} {
	return func() interface{} {
		o := &watcher.ObjType{}
		if err := o.UnmarshalJSON([]byte(js)); err != nil {
			panic(err)
		}
		return o
	}
}

func pod(f func(p *corev1.Pod)) func() interface{} {
	return func() interface{} {
		p := gen.Spec{N: "n", O: "p"}.Pod()
		f(p)
		return p
	}
}

var objects = []object{
	{"full", custom(`{"apiVersion":"x.io/v1","kind":"Widget","metadata":{"name":"full","namespace":"n1","labels":{"app":"web","tier":"x"},"annotations":{"note":"hello"}},"spec":{"replicas":3,"flag":true,"ratio":0.25,"big":1234567890123,"text":"a \"q\" ; , = é\n","list":["x","y","z"],"containers":[{"name":"c1","image":"a"},{"name":"c2","image":"b"}]},"status":{"phase":"Up"}}`)},
	{"bare", custom(`{"apiVersion":"x.io/v1","kind":"Widget","metadata":{"name":"bare"}}`)},
	{"nulls", custom(`{"apiVersion":"x.io/v1","kind":"Widget","metadata":{"name":"nulls","namespace":"n2","labels":{"app":""}},"spec":{"replicas":null,"flag":null,"list":[],"containers":null,"text":""}}`)},
	{"numbers", custom(`{"apiVersion":"x.io/v1","kind":"Widget","metadata":{"name":"numbers","namespace":"n1","labels":{"app":"1"}},"spec":{"replicas":1000000,"ratio":1e21,"big":9223372036854775807,"flag":false,"list":[1,2.5,true],"containers":[{"name":"only"}]}}`)},
	{"types", custom(`{"apiVersion":"x.io/v1","kind":"Widget","metadata":{"name":"types","namespace":"n1","labels":{"app":"a-b"}},"spec":{"replicas":"three","flag":"false","list":{"a":1},"containers":{"name":"notalist","image":"b"},"text":5}}`)},
	{"arrays", custom(`{"apiVersion":"x.io/v1","kind":"Widget","metadata":{"name":"arrays","namespace":"n1"},"spec":{"replicas":[7,8],"none":{"x":"there"},"containers":[{"name":"c","none":["v"]},{"name":"d","none":["w"],"image":"b"}]}}`)},
	{"deleted", custom(`{"apiVersion":"x.io/v1","kind":"Widget","metadata":{"name":"deleted","namespace":"n1","deletionTimestamp":"2020-01-02T03:04:05Z","labels":{"app":"web"}},"spec":{"replicas":1}}`)},
	{"pod", pod(func(p *corev1.Pod) {})},
	{"pod2", pod(func(p *corev1.Pod) {
		p.Name, p.Labels = "p2", map[string]string{"app": "db"}
		p.Spec.Containers = []corev1.Container{{Name: "m", Image: "b"}, {Name: "s", Image: "a"}}
		p.Status.Phase = "Running"
	})},
	{"podgone", pod(func(p *corev1.Pod) {
		p.Name = "p3"
		t := metav1.NewTime(time.Unix(1600000000, 0))
		p.DeletionTimestamp = &t
		p.Annotations = map[string]string{"note": "bye"}
	})},
}

func asMap(o interface{}) map[string]interface{} {
	b, err := json.Marshal(o)
	if err != nil {
		panic(err)
	}
	m := map[string]interface{}{}
	if err := utiljson.Unmarshal(b, &m); err != nil {
		panic(err)
	}
	return m
}

// eval is the meaning of an expression; ok is false when it fails.
func eval(e string, m map[string]interface{}) (v string, ok bool) {
	var ex interface {
		Execute(io.Writer, interface{}) error
	}
	switch {
	case strings.Contains(e, "{{"):
		t, err := template.New("x").Funcs(template.FuncMap{
			"default": func(d string, v interface{}) string {
				if v == nil {
					return d
				}
				return fmt.Sprint(v)
			},
			"quote": func(v interface{}) string {
				if v == nil {
					v = ""
				}
				return fmt.Sprintf("%q", fmt.Sprint(v))
			},
			"join": func(sep string, l ...string) string { return strings.Join(l, sep) },
		}).Parse(e)
		if err != nil {
			return "", false
		}
		ex = t
	case strings.Contains(e, "{"):
		p := jsonpath.New("x")
		p.AllowMissingKeys(true)
		if p.Parse(e) != nil {
			return "", false
		}
		ex = p
	default:
		return e, true
	}
	var b bytes.Buffer
	if ex.Execute(&b, m) != nil {
		return "", false
	}
	return b.String(), true
}

// indexed adds the objects and returns what the store says about the last one.
func indexed(conf map[string]string, objs ...object) (store.Store, map[string]string, error) {
	s := memory.NewMemoryStore(map[store.GroupVersionResource]map[string]string{gen.Pods: conf})
	var last metav1.Object
	for _, o := range objs {
		i := o.mk()
		on := s.OnResourceAdded
		if last != nil && last.GetName() == i.(metav1.Object).GetName() && last.GetNamespace() == i.(metav1.Object).GetNamespace() {
			on = s.OnResourceModified
		}
		last = i.(metav1.Object)
		if err := on(gen.Pods, "c1", i); err != nil {
			return nil, nil, err
		}
	}
	got := s.Get(gen.Pods, "c1", last.GetNamespace(), last.GetName())
	if got == nil {
		return nil, nil, fmt.Errorf("the object is not in the cache")
	}
	m := map[string]string{}
	if err := json.Unmarshal([]byte(got.(metav1.Object).GetAnnotations()[constants.IndexAnno]), &m); err != nil {
		return nil, nil, fmt.Errorf("index annotation: %v", err)
	}
	return s, m, nil
}

// Case is an index configuration (keys k0, k1... in this order) and the objects reported before.
type Case struct {
	E    []string
	Conf map[string]string `json:",omitempty"` // other keys
	Seq  bool              // every sequence of two objects instead of every object
	Meta []string          `json:",omitempty"` // instead: successive versions of one object with these in its metadata
	Pod  bool              `json:",omitempty"` // it is a pod
}

// version is an object with the given members of its metadata.
func (c Case) version(meta string) object {
	if meta != "" {
		meta = "," + meta
	}
	js := `{"apiVersion":"v1","kind":"Pod","metadata":{"name":"v","namespace":"n1"` + meta + `},"spec":{"nodeName":"x"}}`
	if !c.Pod {
		return object{meta, custom(js)}
	}
	return object{meta, func() interface{} {
		p := &corev1.Pod{}
		if err := json.Unmarshal([]byte(js), p); err != nil {
			panic(err)
		}
		return p
	}}
}

var metas = []string{"",
	`"deletionTimestamp":"2020-01-02T03:04:05Z"`, `"deletionTimestamp":"2120-01-02T03:04:05Z"`, `"deletionTimestamp":"0001-01-01T00:00:00Z"`, `"deletionTimestamp":"1970-01-01T00:00:00Z"`, `"deletionTimestamp":null`,
	`"deletionGracePeriodSeconds":0`, `"deletionGracePeriodSeconds":30`, `"finalizers":["f"]`, `"finalizers":[]`,
	`"labels":{"app":"x"}`, `"labels":{"app":""}`, `"labels":{"is_deleted":"true","cluster":"c9","name":"other"}`,
	`"annotations":{"note":"n"}`, `"annotations":{"ckube.daocloud.io/indexes":"{\"name\":\"other\",\"k0\":\"old\",\"zz\":\"1\"}","ckube.doacloud.io/cluster":"c9"}`, `"annotations":{"is_deleted":"true"}`,
	`"creationTimestamp":"2020-01-02T03:04:05Z"`, `"creationTimestamp":null`, `"generateName":"v-"`, `"uid":"u"`, `"resourceVersion":"7"`, `"generation":2`, `"selfLink":"/x"`, `"clusterName":"c9"`,
	`"ownerReferences":[{"apiVersion":"v1","kind":"K","name":"o","uid":"u"}]`, `"managedFields":[{"manager":"m"}]`,
}

var metaExprs = []string{"{.metadata.labels.app}", "{.metadata.annotations.note}", `{{ .metadata.name }}`, "{.metadata.deletionTimestamp}"}

func (c Case) conf() map[string]string {
	m := map[string]string{}
	for i, e := range c.E {
		m[fmt.Sprintf("k%d", i)] = e
	}
	for k, v := range c.Conf {
		m[k] = v
	}
	return m
}

func check(l *mc.Local, c Case, order int, conf map[string]string, objs ...object) error {
	vrt.SetOrder(order)
	s, got, err := indexed(conf, objs...)
	if err != nil {
		return err
	}
	o := objs[len(objs)-1]
	ob := o.mk()
	m := asMap(ob)
	mo := ob.(metav1.Object)
	l.Step(len(objs))
	want := map[string]string{}
	for k, e := range conf {
		v, ok := eval(e, m)
		if !ok {
			vrt.SetOrder(0)
			_, alone, err := indexed(map[string]string{k: e}, o)
			if err != nil {
				return err
			}
			v = alone[k]
		}
		want[k] = v
	}
	want["cluster"], want["namespace"], want["name"] = "c1", mo.GetNamespace(), mo.GetName()
	want["is_deleted"] = fmt.Sprint(mo.GetDeletionTimestamp() != nil)
	desc := func() string {
		var ns []string
		for _, o := range objs {
			ns = append(ns, o.name)
		}
		return fmt.Sprintf("indexes %s, order %d, objects %v", mc.J(conf), order, ns)
	}
	// the values are observed in the annotation and by exact search
	for k, v := range want {
		if g, ok := got[k]; !ok || g != v {
			return fmt.Errorf("%s: index %s is %q (present: %v), want %q", desc(), k, g, ok, v)
		}
		if v != strings.TrimSpace(v) || strings.HasPrefix(v, "!") {
			continue
		}
		r := s.Query(gen.Pods, store.Query{Namespace: mo.GetNamespace(), Paginate: page.Paginate{Search: k + `="` + strings.ReplaceAll(v, ";", ";;") + `"`}})
		found := false
		for _, it := range r.Items {
			found = found || it.(metav1.Object).GetName() == mo.GetName() && it.(metav1.Object).GetNamespace() == mo.GetNamespace()
		}
		if r.Error != nil || !found {
			return fmt.Errorf("%s: not found by exact search for %s = %q (%v)", desc(), k, v, r.Error)
		}
		r = s.Query(gen.Pods, store.Query{Namespace: mo.GetNamespace(), Paginate: page.Paginate{Search: `name="` + mo.GetName() + `"; ` + k + `=!"` + strings.ReplaceAll(v, ";", ";;") + `"`}})
		if r.Error != nil || len(r.Items) > 0 {
			return fmt.Errorf("%s: found by a search for other values than %s = %q (%v)", desc(), k, v, r.Error)
		}
	}
	if len(got) != len(want) {
		return fmt.Errorf("%s: indexes %v, want %v", desc(), got, want)
	}
	l.State(mc.J(conf) + o.name)
	l.Outcome(mc.J(got))
	return nil
}

func fact(n int) int {
	if n < 2 {
		return 1
	}
	return n * fact(n-1)
}

func run(l *mc.Local, c Case) error {
	conf := c.conf()
	n := fact(len(conf))
	if n > 24 {
		n = 24
	}
	if len(c.Meta) > 0 {
		var vs []object
		for _, m := range c.Meta {
			vs = append(vs, c.version(m))
		}
		return check(l, c, 0, conf, vs...)
	}
	for order := 0; order < n; order++ {
		for _, o := range objects {
			if !c.Seq {
				if err := check(l, c, order, conf, o); err != nil {
					return err
				}
				continue
			}
			for _, b := range objects {
				if err := check(l, c, order, conf, b, o); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

func main() {
	world.Quiet()
	if mc.IsWorker() {
		h := mc.H(run)
		mc.Worker(map[string]func(*mc.Local, json.RawMessage) error{"single": h, "pairs": h, "triples": h, "sequences": h, "built-in": h, "metadata": h, "versions": h})
	}
	const core = 14
	lim := time.Minute
	mc.Main(mc.Def{ID: "C18",
		Oracle: "each expression evaluated alone, by a fresh parser, on the object's JSON; expressions that fail must have the value they have as the only index; the order in which the configuration is visited is enumerated",
		Assume: []string{"the meaning of a JSON path or template is that of the k8s.io/client-go jsonpath and text/template libraries with integers as integers", "wildcards over maps have no defined order and are left out"},
		Families: []mc.Family{
			programs(),
			mc.Cases("single", mc.Opts{Bound: fmt.Sprintf("%d expressions alone on %d objects", len(exprs), len(objects))},
				func(c *mc.Ctx, emit func(Case) bool) {
					for _, e := range exprs {
						if !emit(Case{E: []string{e}}) {
							return
						}
					}
				}, mc.Remote[Case]("single", "", lim)),
			mc.Cases("pairs", mc.Opts{Bound: "every ordered pair of a core expression and any expression, in both orders of evaluation, on every object (thorough: all pairs)"},
				func(c *mc.Ctx, emit func(Case) bool) {
					for i, a := range exprs {
						for j, b := range exprs {
							if !c.Thorough() && i >= core && j >= core {
								continue
							}
							if !emit(Case{E: []string{a, b}}) {
								return
							}
						}
					}
				}, mc.Remote[Case]("pairs", "", lim)),
			mc.Cases("triples", mc.Opts{Bound: "every three of 10 (thorough 14) core expressions in all orders of evaluation on every object"},
				func(c *mc.Ctx, emit func(Case) bool) {
					mc.Words(mc.Pick(c, 10, core), 3, func(w []int) bool {
						if w[0] > w[1] || w[1] > w[2] {
							return true // the orders of evaluation cover it
						}
						return emit(Case{E: []string{exprs[w[0]], exprs[w[1]], exprs[w[2]]}})
					})
				}, mc.Remote[Case]("triples", "", lim)),
			mc.Cases("sequences", mc.Opts{Bound: "every pair of 8 (thorough 14) core expressions, both orders, every sequence of two objects"},
				func(c *mc.Ctx, emit func(Case) bool) {
					k := mc.Pick(c, 8, core)
					for i := 0; i < k; i++ {
						for j := 0; j < k; j++ {
							if !emit(Case{E: []string{exprs[i], exprs[j]}, Seq: true}) {
								return
							}
						}
					}
				}, mc.Remote[Case]("sequences", "", lim)),
			mc.Cases("built-in", mc.Opts{Bound: "every expression configured for cluster, namespace, name and is_deleted, alone and for all of them, next to another index, in up to 24 orders"},
				func(c *mc.Ctx, emit func(Case) bool) {
					for _, e := range exprs {
						all := map[string]string{}
						for _, k := range []string{"cluster", "namespace", "name", "is_deleted"} {
							all[k] = e
							if !emit(Case{E: []string{exprs[0]}, Conf: map[string]string{k: e}}) {
								return
							}
						}
						if !emit(Case{E: []string{exprs[7]}, Conf: all}) || !emit(Case{E: []string{e}, Conf: map[string]string{"namespace": "{.metadata.namespace}", "name": "{.metadata.name}"}}) {
							return
						}
					}
				}, mc.Remote[Case]("built-in", "", lim)),
			mc.Cases("metadata", mc.Opts{Bound: fmt.Sprintf("every pair of %d metadata members, in a custom object and a pod", len(metas))},
				func(c *mc.Ctx, emit func(Case) bool) {
					for i, a := range metas {
						for _, b := range metas[i:] {
							m := a
							if strings.SplitN(a, ":", 2)[0] != strings.SplitN(b, ":", 2)[0] {
								m = strings.Trim(a+","+b, ",")
							} else if a != b {
								continue
							}
							for _, p := range []bool{false, true} {
								if !emit(Case{E: metaExprs, Meta: []string{m}, Pod: p}) {
									return
								}
							}
						}
					}
				}, mc.Remote[Case]("metadata", "", lim)),
			mc.Cases("versions", mc.Opts{Bound: "every ordered pair (thorough: triple) of such metadata members in successive versions of one object"},
				func(c *mc.Ctx, emit func(Case) bool) {
					mc.Words(len(metas), mc.Pick(c, 2, 3), func(w []int) bool {
						var m []string
						for _, i := range w {
							m = append(m, metas[i])
						}
						return emit(Case{E: metaExprs, Meta: m}) && emit(Case{E: metaExprs, Meta: m, Pod: true})
					})
				}, mc.Remote[Case]("versions", "", lim)),
		}})
}
