// C20: the fake server behaves like a small multi-cluster API server.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	slog "log"
	"net"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	corev1 "k8s.io/api/core/v1"
	"k8s.io/apimachinery/pkg/api/errors"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/client-go/kubernetes"
	"k8s.io/client-go/rest"

	"ckubemc/mc"
	"ckubemc/world"

	"github.com/DaoCloud/ckube/common/constants"
	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/pkg/client/fake"
)

const config = `{"default_cluster":"c1","proxies":[
{"group":"","version":"v1","resource":"pods","list_kind":"PodList","index":{"namespace":"{.metadata.namespace}","name":"{.metadata.name}"}},
{"group":"","version":"v1","resource":"nodes","list_kind":"NodeList","index":{"name":"{.metadata.name}","namespace":"{.metadata.namespace}"}},
{"group":"","version":"v1","resource":"namespaces","list_kind":"NamespaceList","index":{"name":"{.metadata.name}","namespace":"{.metadata.namespace}"}},
{"group":"","version":"v1","resource":"configmaps","list_kind":"ConfigMapList","index":{"namespace":"{.metadata.namespace}","name":"{.metadata.name}"}},
{"group":"x.io","version":"v1","resource":"pods","list_kind":"PodList","index":{"namespace":"{.metadata.namespace}","name":"{.metadata.name}"}},
{"group":"x.io","version":"v2","resource":"widgets","list_kind":"WidgetList","index":{"namespace":"{.metadata.namespace}","name":"{.metadata.name}"}}]}`

// typ is a resource type.
type typ struct{ group, version, res, kind string }

func (t typ) base() string {
	if t.group == "" {
		return "/api/" + t.version
	}
	return "/apis/" + t.group + "/" + t.version
}

func (t typ) path(ns, name string) string {
	p := t.base()
	if ns != "" {
		p += "/namespaces/" + ns
	}
	p += "/" + t.res
	if name != "" {
		p += "/" + name
	}
	return p
}

var types = map[string]typ{
	"pods":       {"", "v1", "pods", "Pod"},
	"nodes":      {"", "v1", "nodes", "Node"},
	"namespaces": {"", "v1", "namespaces", "Namespace"},
	"configmaps": {"", "v1", "configmaps", "ConfigMap"},
	"xpods":      {"x.io", "v1", "pods", "Pod"},
	"widgets":    {"x.io", "v2", "widgets", "Widget"},
}

// Key names an object; Cluster "" is the default cluster without a marker.
type Key struct{ Type, NS, Name, Cluster string }

func (k Key) real() Key {
	if k.Cluster == "" {
		k.Cluster = "c1"
	}
	return k
}

// contents of objects: what the client writes beside the name
var contents = []map[string]interface{}{
	{"spec": map[string]interface{}{"nodeName": "n1"}},
	{"spec": map[string]interface{}{"nodeName": "n2", "priority": json.Number("7")}, "metadata": map[string]interface{}{"labels": map[string]interface{}{"app": "x"}}},
	{},
	{"metadata": map[string]interface{}{"annotations": map[string]interface{}{"a": "b\n\"<&>", "long": strings.Repeat("x", 3000)}, "finalizers": []interface{}{"f"}}, "spec": map[string]interface{}{"schedulerName": "名\u2028"}},
	{"spec": map[string]interface{}{"priority": json.Number("2147483647"), "hostNetwork": true, "tolerations": []interface{}{map[string]interface{}{"key": "k"}}}, "status": map[string]interface{}{"phase": "Running"}},
	{"metadata": map[string]interface{}{"labels": map[string]interface{}{"": "", "k": ""}, "deletionTimestamp": "2020-01-01T00:00:00Z", "uid": "u", "resourceVersion": "5", "generation": json.Number("3")}},
	{"metadata": map[string]interface{}{"annotations": map[string]interface{}{"huge": strings.Repeat("0123456789", 15000)}}},
}

const huge = 6 // the last content

func body(k Key, content int, inBody bool) map[string]interface{} {
	t := types[k.Type]
	m := map[string]interface{}{"kind": t.kind, "apiVersion": strings.TrimPrefix(t.group+"/"+t.version, "/")}
	var c map[string]interface{}
	_ = decode([]byte(mc.J(contents[content])), &c)
	for a, b := range c {
		m[a] = b
	}
	md, _ := m["metadata"].(map[string]interface{})
	if md == nil {
		md = map[string]interface{}{}
		m["metadata"] = md
	}
	md["name"] = k.Name
	if inBody && k.NS != "" {
		md["namespace"] = k.NS
	}
	return m
}

func decode(b []byte, v interface{}) error {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	return d.Decode(v)
}

// plain is an object without what the server adds and without empty members.
func plain(m map[string]interface{}) map[string]interface{} {
	var c map[string]interface{}
	_ = decode([]byte(mc.J(m)), &c)
	if md, ok := c["metadata"].(map[string]interface{}); ok {
		if an, ok := md["annotations"].(map[string]interface{}); ok {
			delete(an, constants.DSMClusterAnno)
			delete(an, constants.IndexAnno)
		}
	}
	prune(c)
	return c
}

// prune drops null and empty members, which typed clients write as they like.
func prune(v interface{}) bool {
	switch x := v.(type) {
	case nil:
		return true
	case map[string]interface{}:
		for k, e := range x {
			if _, str := e.(string); !str && prune(e) {
				delete(x, k)
			}
		}
		return len(x) == 0
	case []interface{}:
		return len(x) == 0
	}
	return false
}

// Op is an operation of a client: C create, U update, D delete, X clean,
// W open a watch, S stop the oldest open watch, G delete of a whole collection,
// B try to open a watch with a selector that can not be understood.
type Op struct {
	Op      string
	Key     Key  `json:",omitempty"`
	Content int  `json:",omitempty"`
	Typed   bool `json:",omitempty"` // through the typed client
	Bare    bool `json:",omitempty"` // the object does not name its namespace
	Watch   int  `json:",omitempty"`
	Else    bool `json:",omitempty"` // the object names another namespace than the request
	Slow    bool `json:",omitempty"` // this watcher's connection takes hardly anything before it is read
}

// watches that can be opened
type watchKind struct {
	Type, NS string
	Clusters []string
	Old      bool // by the /watch/ path
}

var watchKinds = []watchKind{
	{"pods", "", nil, false},
	{"pods", "n1", nil, false},
	{"pods", "", []string{"c1"}, false},
	{"pods", "n1", []string{"c2"}, false},
	{"pods", "n2", []string{"c2", "c1"}, false},
	{"pods", "", nil, true},
	{"pods", "n1", nil, true},
	{"nodes", "", nil, false},
	{"xpods", "", nil, false},
	{"widgets", "n1", []string{"c1"}, false},
	{"namespaces", "", []string{"c2"}, false},
	{"pods", "", []string{"c"}, false},
	{"widgets", "", nil, false},
}

// related only differ from others in a part of a name
const related = 13

func init() {
	for _, t := range []string{"pods", "xpods"} {
		for _, ns := range []string{"n", "n11", "N1", ""} {
			watchKinds = append(watchKinds, watchKind{t, ns, nil, ns == "n11"}, watchKind{t, ns, []string{"c11"}, false}, watchKind{t, ns, []string{"c", "C1"}, false})
		}
	}
}

func relatedKeys() []Key {
	var r []Key
	for _, t := range []string{"pods", "xpods", "nodes"} {
		for _, ns := range []string{"n", "n1", "n11", "N1", ""} {
			if ns != "" && t == "nodes" {
				continue
			}
			for _, c := range []string{"c", "c1", "c11", "C1", "", "eu-west-c1", "dsm-cluster-c1"} {
				r = append(r, key(t, ns, []string{"a", "ab", "A"}[len(r)%3], c))
			}
		}
	}
	return r
}

// badSelectors are no selectors, or carry no query.
var badSelectors = []string{"a=b=c", "(", "!", "a in", "a in (b", "=", "a>1,=", "a=-", "ckube.daocloud.io/query notin (", "ckube.daocloud.io/query notin (A)", "ckube.daocloud.io/query notin (abc.d)",
	"ckube.daocloud.io/query notin (eyJwYWdlIjox)", "ckube.daocloud.io/query=W10", "ckube.daocloud.io/query notin (x,y)", "ckube.daocloud.io/query notin (0000.eyJw,0008.YWdl)"}

func (w watchKind) matches(k Key) bool {
	if w.Type != k.Type || w.NS != "" && w.NS != k.NS {
		return false
	}
	if w.Clusters == nil {
		return true
	}
	for _, c := range w.Clusters {
		if c == k.Cluster {
			return true
		}
	}
	return false
}

// ---- the server under test ----

type bench struct {
	s   fake.CkubeServer
	rc  rest.Interface
	slo rest.Interface // connections with a small receive buffer
	cli kubernetes.Interface

	before []Case // that ran on it
}

var startMu sync.Mutex

func newBench() (*bench, error) {
	startMu.Lock()
	defer startMu.Unlock()
	for i := 0; i < 200; i++ {
		addr, err := world.FreePort()
		if err != nil {
			return nil, fmt.Errorf("HARNESS: %v", err)
		}
		s, err := fake.NewFakeCKubeServer(addr, config)
		if err != nil {
			continue
		}
		c := rest.CopyConfig(s.GetKubeConfig())
		c.QPS = -1
		cli, err := kubernetes.NewForConfig(c)
		if err != nil {
			return nil, err
		}
		c = rest.CopyConfig(c)
		c.Dial = func(ctx context.Context, n, a string) (net.Conn, error) {
			d := net.Dialer{Control: func(_, _ string, rc syscall.RawConn) error {
				return rc.Control(func(fd uintptr) { _ = syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, 32768) })
			}}
			return d.DialContext(ctx, n, a)
		}
		slo, err := kubernetes.NewForConfig(c)
		if err != nil {
			return nil, err
		}
		return &bench{s: s, rc: cli.CoreV1().RESTClient(), cli: cli, slo: slo.CoreV1().RESTClient()}, nil
	}
	return nil, fmt.Errorf("no server can be started")
}

var pool = make(chan *bench, 64)

func getBench() (*bench, bool, error) {
	select {
	case b := <-pool:
		return b, true, nil
	default:
		b, err := newBench()
		return b, false, err
	}
}

// ---- model ----

type event struct {
	action string
	key    Key
	obj    map[string]interface{}
}

type openWatch struct {
	kind   watchKind
	stream io.ReadCloser
	dec    *json.Decoder
	want   []event
}

type state struct {
	b    *bench
	objs map[Key]map[string]interface{}
	ws   []*openWatch
	ever []*openWatch
	what string
	x    *mc.X
}

var ctx = context.Background()

func (s *state) fail(f string, a ...interface{}) error {
	return fmt.Errorf("%s: %s", s.what, fmt.Sprintf(f, a...))
}

// write does a C, U or D and returns the error of the client.
func (s *state) write(o Op) (map[string]interface{}, error) {
	k := o.Key
	t := types[k.Type]
	m := body(k, o.Content, !o.Bare)
	if o.Else {
		m["metadata"].(map[string]interface{})["namespace"] = "elsewhere"
	}
	var res map[string]interface{}
	switch o.Op {
	case "C":
		opt := metav1.CreateOptions{}
		if k.Cluster != "" {
			opt, _ = page.QueryCreateOptions(opt, k.Cluster)
		}
		if o.Typed && k.Type == "pods" {
			p := &corev1.Pod{}
			_ = json.Unmarshal([]byte(mc.J(m)), p)
			r, err := s.b.cli.CoreV1().Pods(k.NS).Create(ctx, p, opt)
			if err == nil {
				r.Kind, r.APIVersion = "Pod", "v1" // typed clients drop them
				_ = decode([]byte(mc.J(r)), &res)
			}
			return res, err
		}
		q := s.b.rc.Post().AbsPath(t.path(k.NS, "")).Body([]byte(mc.J(m))).SetHeader("Content-Type", "application/json")
		if opt.FieldManager != "" {
			q = q.Param("fieldManager", opt.FieldManager)
		}
		b, err := q.DoRaw(ctx)
		if err == nil {
			_ = decode(b, &res)
		}
		return res, err
	case "U":
		opt := metav1.UpdateOptions{}
		if k.Cluster != "" {
			opt, _ = page.QueryUpdateOptions(opt, k.Cluster)
		}
		if o.Typed && k.Type == "pods" {
			p := &corev1.Pod{}
			_ = json.Unmarshal([]byte(mc.J(m)), p)
			r, err := s.b.cli.CoreV1().Pods(k.NS).Update(ctx, p, opt)
			if err == nil {
				r.Kind, r.APIVersion = "Pod", "v1" // typed clients drop them
				_ = decode([]byte(mc.J(r)), &res)
			}
			return res, err
		}
		q := s.b.rc.Put().AbsPath(t.path(k.NS, k.Name)).Body([]byte(mc.J(m))).SetHeader("Content-Type", "application/json")
		if opt.FieldManager != "" {
			q = q.Param("fieldManager", opt.FieldManager)
		}
		b, err := q.DoRaw(ctx)
		if err == nil {
			_ = decode(b, &res)
		}
		return res, err
	case "D":
		opt := metav1.DeleteOptions{}
		if k.Cluster != "" {
			opt, _ = page.QueryDeleteOptions(opt, k.Cluster)
		}
		if o.Typed && k.Type == "pods" {
			return nil, s.b.cli.CoreV1().Pods(k.NS).Delete(ctx, k.Name, opt)
		}
		_, err := s.b.rc.Delete().AbsPath(t.path(k.NS, k.Name)).Body([]byte(mc.J(opt))).SetHeader("Content-Type", "application/json").DoRaw(ctx)
		return nil, err
	}
	return nil, nil
}

func (s *state) open(kind int, slow bool) error {
	w := &openWatch{kind: watchKinds[kind]}
	t := types[w.kind.Type]
	q := s.b.rc.Get()
	if slow {
		q = s.b.slo.Get()
	}
	if w.kind.Old {
		p := t.base() + "/watch"
		if w.kind.NS != "" {
			p += "/namespaces/" + w.kind.NS
		}
		q = q.AbsPath(p + "/" + t.res)
	} else {
		q = q.AbsPath(t.path(w.kind.NS, "")).Param("watch", []string{"true", "1"}[kind%2])
	}
	if w.kind.Clusters != nil {
		p := page.Paginate{}
		_ = p.Clusters(w.kind.Clusters)
		lo, err := page.QueryListOptions(metav1.ListOptions{}, p)
		if err != nil {
			return s.fail("HARNESS: %v", err)
		}
		q = q.Param("labelSelector", lo.LabelSelector)
	}
	c, cancel := context.WithTimeout(ctx, 20*time.Second)
	st, err := q.Stream(c)
	if err != nil {
		cancel()
		return s.fail("the watch %+v was refused: %v", w.kind, err)
	}
	w.stream = cancelled{st, cancel}
	w.dec = json.NewDecoder(st)
	w.dec.UseNumber()
	s.ws = append(s.ws, w)
	s.ever = append(s.ever, w)
	return nil
}

type cancelled struct {
	io.ReadCloser
	cancel func()
}

func (c cancelled) Close() error {
	c.cancel()
	return c.ReadCloser.Close()
}

// do performs one operation on the server and the model.
func (s *state) do(o Op) error {
	s.what += " " + o.Op
	s.x.Step(1)
	switch o.Op {
	case "X":
		s.b.s.Clean()
		s.objs = map[Key]map[string]interface{}{}
		return nil
	case "W":
		s.what += fmt.Sprint(watchKinds[o.Watch])
		return s.open(o.Watch, o.Slow)
	case "B":
		s.what += fmt.Sprintf(" %q", badSelectors[o.Content])
		t := types[o.Key.Type]
		limit, cancel := context.WithTimeout(ctx, 20*time.Second)
		defer cancel()
		st, err := s.b.rc.Get().AbsPath(t.path(o.Key.NS, "")).Param("watch", "true").Param("labelSelector", badSelectors[o.Content]).Stream(limit)
		if err == nil {
			st.Close()
			return s.fail("a watch was opened")
		}
		if se, ok := err.(*errors.StatusError); !ok || se.ErrStatus.Code < 400 || se.ErrStatus.Code > 499 {
			return s.fail("no client error: %v", err)
		}
		return nil
	case "S":
		if len(s.ws) > 0 {
			w := s.ws[0]
			s.ws = s.ws[1:]
			err := s.drain(w)
			w.stream.Close()
			return err
		}
		return nil
	case "G":
		s.what += fmt.Sprint(o.Key)
		_, err := s.b.rc.Delete().AbsPath(types[o.Key.Type].path(o.Key.NS, "")).Body([]byte("{}")).SetHeader("Content-Type", "application/json").DoRaw(ctx)
		if err == nil {
			return s.fail("the fake server has no collection deletes, but answered with success")
		}
		return nil
	}
	s.what += fmt.Sprint(o.Key)
	k := o.Key.real()
	_, exists := s.objs[k]
	possible := exists == (o.Op != "C")
	res, err := s.write(o)
	if err != nil && o.Else { // what a real API server does
		return nil
	}
	if (err == nil) != possible {
		return s.fail("the object exists: %v, the answer: %v", exists, err)
	}
	if !possible {
		return nil
	}
	want := body(k, o.Content, true)
	e := event{map[string]string{"C": "ADDED", "U": "MODIFIED", "D": "DELETED"}[o.Op], k, want}
	if o.Op == "D" {
		e.obj = s.objs[k]
		delete(s.objs, k)
	} else {
		s.objs[k] = want
		if d := differ(res, want, ""); d != "" {
			return s.fail("the answer: %s", d)
		}
	}
	for _, w := range s.ws {
		if w.kind.matches(k) {
			w.want = append(w.want, e)
		}
	}
	return nil
}

func differ(got, want map[string]interface{}, cluster string) string {
	if got == nil {
		return "no object"
	}
	if cluster != "" {
		md, _ := got["metadata"].(map[string]interface{})
		an, _ := md["annotations"].(map[string]interface{})
		if an[constants.DSMClusterAnno] != cluster {
			return fmt.Sprintf("of cluster %v instead of %s", an[constants.DSMClusterAnno], cluster)
		}
	}
	a, b := plain(got), plain(want)
	if !reflect.DeepEqual(a, b) {
		return fmt.Sprintf("got %.600s\n   want %.600s", mc.J(a), mc.J(b))
	}
	return ""
}

// drain reads what a watch has to deliver.
func (s *state) drain(w *openWatch) error {
	for i, e := range w.want {
		var m struct {
			Type   string
			Object map[string]interface{}
		}
		if err := w.dec.Decode(&m); err != nil {
			return s.fail("watch %+v: event %d (%s %v) is missing: %v", w.kind, i, e.action, e.key, err)
		}
		if m.Type != e.action {
			return s.fail("watch %+v: event %d: %s %s instead of %s %v", w.kind, i, m.Type, mc.J(m.Object), e.action, e.key)
		}
		if d := differ(m.Object, e.obj, ""); d != "" {
			return s.fail("watch %+v: event %d: %s", w.kind, i, d)
		}
	}
	w.want = nil
	return nil
}

// sentinels makes an event for every open watch, so that extra events show.
func (s *state) sentinels() error {
	seen := map[Key]bool{}
	for _, w := range append([]*openWatch{}, s.ws...) {
		k := Key{w.kind.Type, w.kind.NS, "sentinel", "c1"}
		if k.NS == "" && (k.Type == "pods" || k.Type == "widgets" || k.Type == "xpods") {
			k.NS = "n1"
		}
		if w.kind.Clusters != nil {
			k.Cluster = w.kind.Clusters[0]
		}
		if seen[k] {
			continue
		}
		seen[k] = true
		op := "C"
		if s.objs[k] != nil {
			op = "U"
		}
		if err := s.do(Op{Op: op, Key: k}); err != nil {
			return err
		}
	}
	for _, w := range s.ws {
		if err := s.drain(w); err != nil {
			return err
		}
	}
	return nil
}

// reads compares everything that can be read with the model.
func (s *state) reads(keys []Key, typed bool) error {
	tn := map[string]bool{}
	for _, k := range keys {
		s.x.Step(1)
		tn[k.Type+"/"] = true
		tn[k.Type+"/"+k.NS] = true
		opt := metav1.GetOptions{}
		if k.Cluster != "" {
			opt, _ = page.QueryGetOptions(opt, k.Cluster)
		}
		var got map[string]interface{}
		var err error
		if typed && k.Type == "pods" {
			var p *corev1.Pod
			if p, err = s.b.cli.CoreV1().Pods(k.NS).Get(ctx, k.Name, opt); err == nil {
				p.Kind, p.APIVersion = "Pod", "v1" // typed clients drop them
				err = decode([]byte(mc.J(p)), &got)
			}
		} else {
			q := s.b.rc.Get().AbsPath(types[k.Type].path(k.NS, k.Name))
			if opt.ResourceVersion != "" {
				q = q.Param("resourceVersion", opt.ResourceVersion)
			}
			var b []byte
			if b, err = q.DoRaw(ctx); err == nil {
				err = decode(b, &got)
			}
		}
		want, ok := s.objs[k.real()]
		if ok != (err == nil) {
			return s.fail("get %v: exists %v, answer %v", k, ok, err)
		}
		if ok {
			if d := differ(got, want, k.real().Cluster); d != "" {
				return s.fail("get %v: %s", k, d)
			}
		}
	}
	for p := range tn {
		for _, cl := range [][]string{{"c1", "c2", "c"}, {"c2"}, nil} {
			s.x.Step(1)
			f := strings.SplitN(p, "/", 2)
			q := s.b.rc.Get().AbsPath(types[f[0]].path(f[1], ""))
			of := cl
			if cl != nil {
				pg := page.Paginate{}
				_ = pg.Clusters(cl)
				lo, err := page.QueryListOptions(metav1.ListOptions{}, pg)
				if err != nil {
					return s.fail("HARNESS: %v", err)
				}
				q = q.Param("labelSelector", lo.LabelSelector)
			} else {
				of = []string{"c1"}
			}
			b, err := q.DoRaw(ctx)
			if err != nil {
				return s.fail("list %s of %v: %v", p, cl, err)
			}
			var l struct{ Items []map[string]interface{} }
			if err := decode(b, &l); err != nil {
				return s.fail("list %s of %v: %v", p, cl, err)
			}
			var got, want []string
			for _, o := range l.Items {
				md, _ := o["metadata"].(map[string]interface{})
				an, _ := md["annotations"].(map[string]interface{})
				delete(o, "kind")
				delete(o, "apiVersion")
				got = append(got, fmt.Sprint(an[constants.DSMClusterAnno])+" "+mc.J(plain(o)))
			}
			for k, o := range s.objs {
				if k.Type != f[0] || f[1] != "" && k.NS != f[1] {
					continue
				}
				for _, c := range of {
					if c == k.Cluster {
						m := plain(o)
						delete(m, "kind")
						delete(m, "apiVersion")
						want = append(want, c+" "+mc.J(m))
					}
				}
			}
			sort.Strings(got)
			sort.Strings(want)
			if !reflect.DeepEqual(got, want) {
				return s.fail("list %s of %v: got %.900s\n   want %.900s", p, cl, got, want)
			}
		}
	}
	return nil
}

// Case is a word of operations on a server without objects.
type Case struct {
	Ops    []Op
	Listen bool `json:",omitempty"` // listen on the event channel

	Before []Case `json:",omitempty"` // on the same server
}

// ---- the event channel ----

// receiver waits for one event; got is closed when it has it.
type receiver struct {
	got chan bool
	e   fake.Event
	id  string
}

func receive(r *receiver, ch <-chan fake.Event, ready chan string) {
	buf := make([]byte, 64)
	n := runtime.Stack(buf, false)
	ready <- strings.Fields(string(buf[:n]))[1]
	r.e = <-ch
	close(r.got)
}

// park starts a receiver and returns when it waits.
func park(ch <-chan fake.Event) *receiver {
	r := &receiver{got: make(chan bool)}
	ready := make(chan string)
	go receive(r, ch, ready)
	r.id = <-ready
	buf := make([]byte, 1<<20)
	for i := 0; i < 100000; i++ {
		n := runtime.Stack(buf, true)
		if strings.Contains(string(buf[:n]), "goroutine "+r.id+" [chan receive") {
			return r
		}
		runtime.Gosched()
	}
	return r
}

func (s *state) listened(rs []*receiver, want *event, op string) ([]*receiver, error) {
	if want != nil {
		end := time.After(20 * time.Second)
		select {
		case <-rs[0].got:
		case <-rs[1].got:
			rs[0], rs[1] = rs[1], rs[0]
		case <-end:
			return rs, s.fail("the listener on the event channel got no event of the last operation")
		}
		e := rs[0].e
		act := map[string]fake.EventAction{"C": fake.EventActionAdd, "U": fake.EventActionUpdate, "D": fake.EventActionDelete}[op]
		t := types[want.key.Type]
		if e.EventAction != act || e.Group != t.group || e.Version != t.version || e.Resource != t.res || e.Cluster != want.key.Cluster || e.Namespace != want.key.NS || e.Name != want.key.Name {
			return rs, s.fail("the event is %+v", e)
		}
		var o map[string]interface{}
		if err := decode([]byte(e.Raw), &o); err != nil {
			return rs, s.fail("the event is %+v: %v", e, err)
		}
		if d := differ(o, want.obj, ""); d != "" {
			return rs, s.fail("the event: %s", d)
		}
		rs[0] = park(s.b.s.Events())
	}
	for _, r := range rs {
		select {
		case <-r.got:
			return rs, s.fail("an event nobody asked for: %+v", r.e)
		default:
		}
	}
	return rs, nil
}

func exec(x *mc.X, c Case) error {
	if len(c.Before) > 0 {
		return after(x, c)
	}
	b, used, err := getBench()
	if err != nil {
		return fmt.Errorf("HARNESS: %v", err)
	}
	before := b.before
	b.before = append(b.before[:len(b.before):len(b.before)], c)
	err = execOn(x, c, b)
	if err != nil && used {
		// does it fail on a server that was not used before as well?
		b.s.Stop()
		first := err
		for i := 0; i < 4; i++ {
			if b, err = newBench(); err != nil {
				return fmt.Errorf("HARNESS: %v", err)
			}
			if err = execOn(x, c, b); err != nil {
				break
			}
			b.s.Stop()
		}
		if err == nil {
			// or after the same cases?
			full := c
			full.Before = before
			for i := 0; i < 2; i++ {
				if err := after(x, full); err != nil {
					return mc.Instead(full, fmt.Errorf("after %d other sequences with clean-ups between them: %v", len(before), err))
				}
			}
			return fmt.Errorf("HARNESS: not reproducible: %v", first)
		}
	}
	if err == nil && len(b.before) < 300 {
		b.s.Clean()
		pool <- b
	} else {
		b.s.Stop()
	}
	return err
}

// after runs the case on a new server after others.
func after(x *mc.X, c Case) error {
	b, err := newBench()
	if err != nil {
		return fmt.Errorf("HARNESS: %v", err)
	}
	defer b.s.Stop()
	for _, o := range c.Before {
		if err := execOn(x, o, b); err != nil {
			return err
		}
		b.s.Clean()
	}
	c.Before = nil
	return execOn(x, c, b)
}

func execOn(x *mc.X, c Case, b *bench) error {
	s := &state{b: b, objs: map[Key]map[string]interface{}{}, x: x}
	defer func() {
		for _, w := range s.ever {
			w.stream.Close()
		}
	}()
	var rs []*receiver
	if c.Listen {
		ch := b.s.Events()
		rs = []*receiver{park(ch), park(ch)}
		defer func() { // make them end
			for _, op := range []string{"C", "D"} {
				_, _ = s.write(Op{Op: op, Key: key("configmaps", "n", "end", "c1")})
			}
			for _, r := range rs {
				select {
				case <-r.got:
				case <-time.After(5 * time.Second):
				}
			}
		}()
	}
	var keys []Key
	seen := map[Key]bool{}
	typed := false
	for _, o := range c.Ops {
		var old map[string]interface{}
		k := o.Key.real()
		if c.Listen {
			old = s.objs[k]
		}
		if err := s.do(o); err != nil {
			return err
		}
		if c.Listen {
			var want *event
			switch {
			case o.Op == "C" && old == nil, o.Op == "U" && old != nil:
				want = &event{key: k, obj: s.objs[k]}
			case o.Op == "D" && old != nil:
				want = &event{key: k, obj: old}
			}
			var err error
			if rs, err = s.listened(rs, want, o.Op); err != nil {
				return err
			}
		}
		typed = typed || o.Typed
		if o.Key.Name != "" && !seen[o.Key] {
			seen[o.Key] = true
			keys = append(keys, o.Key)
			for _, cl := range []string{"c1", "c2"} {
				other := o.Key
				other.Cluster = cl
				if !seen[other] {
					seen[other] = true
					keys = append(keys, other)
				}
			}
		}
	}
	if err := s.reads(keys, typed); err != nil {
		return err
	}
	if err := s.sentinels(); err != nil {
		return err
	}
	var st []string
	for k := range s.objs {
		st = append(st, fmt.Sprint(k))
	}
	sort.Strings(st)
	x.State(strings.Join(st, ","))
	x.Outcome(fmt.Sprintf("%d objects, %d watches", len(s.objs), len(s.ws)))
	x.Sample(s.what)
	return nil
}

// span emits the words of length lo to hi, short ones first.
func span(k, lo, hi int, emit func([]int) bool) {
	for n := lo; n <= hi; n++ {
		if !mc.Words(k, n, emit) {
			return
		}
	}
}

func key(t, ns, name, cl string) Key { return Key{t, ns, name, cl} }

func main() {
	slog.SetOutput(io.Discard) // of net/http
	opt := func(b string, thorough bool) mc.Opts {
		return mc.Opts{Bound: b, Workers: 12, Thorough: thorough, Limit: 4 * time.Minute}
	}
	words := func(ops []Op, lo, hi int, f func([]Op) Case) func(c *mc.Ctx, emit func(Case) bool) {
		return func(c *mc.Ctx, emit func(Case) bool) {
			hi := hi
			if c.Thorough() {
				hi++
			}
			span(len(ops), lo, hi, func(w []int) bool {
				var l []Op
				for _, i := range w {
					l = append(l, ops[i])
				}
				return emit(f(l))
			})
		}
	}
	plainCase := func(l []Op) Case { return Case{Ops: l} }
	crud := func(keys ...Key) []Op {
		var r []Op
		for i, k := range keys {
			r = append(r, Op{Op: "C", Key: k, Content: i % 2}, Op{Op: "U", Key: k, Content: 1 + i%2, Bare: i%2 == 1}, Op{Op: "D", Key: k})
		}
		return r
	}
	p := key("pods", "n1", "a", "c1")
	p2 := key("pods", "n1", "a", "c2")
	pn := key("pods", "n2", "a", "c1")
	mc.Main(mc.Def{ID: "C20",
		Oracle: "a map of objects and one list of expected events for every watch",
		Assume: []string{"operations one after another; watchers read", "objects have names, and an update names the object of its path", "20 seconds are enough for an event to arrive"},
		Quick:  90 * time.Second, Long: 780 * time.Second,
		Families: []mc.Family{
			mc.Cases("objects", opt("words of up to 4 (thorough 5) operations on one object in two clusters and one in another namespace, and clean-ups", false),
				words(append(crud(p, p2, pn), Op{Op: "X"}), 1, 4, plainCase), exec),
			mc.Cases("kinds", opt("words of up to 2 (thorough 3) operations on objects of 6 types, 3 clusters, cluster-wide and namespaced, equal and extended names, by the typed client and others", false),
				words(append(append(crud(p, key("pods", "n1", "a", ""), key("pods", "n1", "ab", "c"), key("nodes", "", "a", "c2"), key("namespaces", "", "n1", "c1"), key("namespaces", "", "n1", ""), key("xpods", "n1", "a", "c1"), key("widgets", "n1", "a", "c1"), key("configmaps", "n1", "a.b", "c2"), key("pods", "n2", "ab", "c2")),
					Op{Op: "C", Key: p, Typed: true}, Op{Op: "U", Key: p, Typed: true, Content: 1}, Op{Op: "D", Key: p, Typed: true}, Op{Op: "C", Key: pn, Typed: true, Bare: true}),
					Op{Op: "X"}, Op{Op: "G", Key: p}, Op{Op: "G", Key: key("nodes", "", "", "")}), 1, 2, plainCase), exec),
			mc.Cases("watches", opt("words of up to 4 (thorough 5) of 11 operations: opening 4 kinds of watches, stopping the oldest one, writes in two clusters and namespaces", false),
				words([]Op{{Op: "W", Watch: 0}, {Op: "W", Watch: 1}, {Op: "W", Watch: 2}, {Op: "W", Watch: 3}, {Op: "S"}, {Op: "C", Key: p}, {Op: "U", Key: p, Content: 1}, {Op: "D", Key: p}, {Op: "C", Key: p2, Content: 1}, {Op: "C", Key: pn, Bare: true}, {Op: "X"}}, 2, 4, plainCase),
				exec),
			mc.Cases("watch kinds", opt("every pair of 13 kinds of watches, then every word of up to 2 (thorough 3) writes of 12", false),
				func(c *mc.Ctx, emit func(Case) bool) {
					ops := append(crud(p, p2), Op{Op: "C", Key: key("nodes", "", "a", "c2")}, Op{Op: "C", Key: key("namespaces", "", "n1", "c2")}, Op{Op: "C", Key: key("xpods", "n1", "a", "c2")}, Op{Op: "C", Key: key("widgets", "n1", "a", "")}, Op{Op: "C", Key: key("pods", "n2", "a", "c1"), Bare: true}, Op{Op: "C", Key: key("pods", "n2", "a", "c"), Typed: true})
					hi := 2
					if c.Thorough() {
						hi = 3
					}
					for i := range watchKinds[:related] {
						for j := range watchKinds[:related] {
							if j < i {
								continue
							}
							ok := true
							span(len(ops), 1, hi, func(w []int) bool {
								l := []Op{{Op: "W", Watch: i}, {Op: "W", Watch: j}}
								for _, k := range w {
									l = append(l, ops[k])
								}
								ok = emit(Case{Ops: l})
								return ok
							})
							if !ok {
								return
							}
						}
					}
				}, exec),
			mc.Cases("related", opt("create and delete of one object under every kind of watch of 24, and creation of every pair of 77, of types, namespaces, clusters and names of which one is a part of the other or differs in case only", false),
				func(c *mc.Ctx, emit func(Case) bool) {
					ks := relatedKeys()
					for i := related; i < len(watchKinds); i++ {
						for _, k := range ks {
							if !emit(Case{Ops: []Op{{Op: "W", Watch: i}, {Op: "C", Key: k}, {Op: "D", Key: k}}}) {
								return
							}
						}
					}
					for i, a := range ks {
						for _, b := range ks[i+1:] {
							if !emit(Case{Ops: []Op{{Op: "C", Key: a}, {Op: "C", Key: b, Content: 1}, {Op: "D", Key: a}}}) {
								return
							}
						}
					}
				}, exec),
			mc.Cases("contents", opt("create, update and delete with every pair of 6 contents, by the typed client and others, with and without namespace in the object", false),
				func(c *mc.Ctx, emit func(Case) bool) {
					for a := range contents[:huge] {
						for b := range contents[:huge] {
							for f := 0; f < 4; f++ {
								o := Op{Typed: f&1 != 0, Bare: f&2 != 0, Key: p}
								mk := func(op string, ct int) Op { n := o; n.Op, n.Content = op, ct; return n }
								for _, l := range [][]Op{{mk("C", a)}, {mk("C", a), mk("U", b)}, {mk("C", a), mk("U", b), mk("D", 0)}, {mk("C", a), mk("D", 0), mk("C", b)}} {
									if !emit(Case{Ops: append([]Op{{Op: "W"}}, l...)}) {
										return
									}
								}
							}
						}
					}
				}, exec),
			mc.Cases("listener", opt("words of up to 3 (thorough 4) operations of 7 with a listener waiting on the event channel, and a watch", false),
				words(append(crud(p), Op{Op: "C", Key: key("widgets", "n2", "a", "c2")}, Op{Op: "D", Key: key("widgets", "n2", "a", "c2")}, Op{Op: "C", Key: key("nodes", "", "a", ""), Bare: true}, Op{Op: "X"}), 1, 3, func(l []Op) Case {
					return Case{Ops: append([]Op{{Op: "W", Watch: 0}}, l...), Listen: true}
				}), exec),
			mc.Cases("refused", opt("a watch with each of 15 selectors that can not be understood, for 2 types, with none or one of 3 kinds of watches open, then writes", false),
				func(c *mc.Ctx, emit func(Case) bool) {
					for i := range badSelectors {
						for _, k := range []Key{key("pods", "n1", "a", "c1"), key("widgets", "", "a", "c1")} {
							for w := -1; w < 3; w++ {
								l := []Op{{Op: "B", Content: i, Key: k}}
								if w >= 0 {
									l = append([]Op{{Op: "W", Watch: w}}, l...)
								}
								if !emit(Case{Ops: append(l, Op{Op: "C", Key: p}, Op{Op: "D", Key: p})}) {
									return
								}
							}
						}
					}
				}, exec),
			mc.Cases("elsewhere", opt("words of up to 3 (thorough 4) of 8 writes on two objects, the objects of some of which name another namespace than the request, with two watches", false),
				words([]Op{{Op: "C", Key: p, Else: true}, {Op: "U", Key: p, Else: true, Content: 1}, {Op: "C", Key: p}, {Op: "U", Key: p}, {Op: "D", Key: p}, {Op: "C", Key: key("pods", "elsewhere", "a", "c1"), Content: 1}, {Op: "D", Key: key("pods", "elsewhere", "a", "c1")}, {Op: "C", Key: key("nodes", "", "a", "c2"), Else: true}}, 1, 3, func(l []Op) Case {
					return Case{Ops: append([]Op{{Op: "W", Watch: 0}, {Op: "W", Watch: 1}}, l...)}
				}), exec),
			mc.Cases("bursts", opt("2, 10, 100 and 400 writes in a row with 1 to 3 watches that are read only afterwards", false),
				func(c *mc.Ctx, emit func(Case) bool) {
					for _, n := range []int{2, 10, 100, 400} {
						for ws := 1; ws <= 3; ws++ {
							var l []Op
							for i := 0; i < ws; i++ {
								l = append(l, Op{Op: "W", Watch: []int{0, 1, 3}[i]})
							}
							for i := 0; i < n; i++ {
								k := key("pods", []string{"n1", "n2"}[i/3%2], fmt.Sprintf("o%d", i/9), []string{"c1", "c2", ""}[i/6%3])
								l = append(l, Op{Op: []string{"C", "U", "D"}[i%3], Key: k, Content: i % 2})
							}
							if !emit(Case{Ops: l}) {
								return
							}
						}
					}
				}, exec),
			mc.Cases("slow", opt("40 (thorough also 100) writes of large objects, and in some cases 300 of small ones, while 1 to 2 watchers of 3 kinds take nothing from their connection and a further one does or does not; read in every order", false),
				func(c *mc.Ctx, emit func(Case) bool) {
					for _, n := range mc.Pick(c, []int{40}, []int{40, 100}) {
						for _, ws := range [][]Op{
							{{Op: "W", Watch: 0, Slow: true}},
							{{Op: "W", Watch: 1, Slow: true}},
							{{Op: "W", Watch: 3, Slow: true}},
							{{Op: "W", Watch: 0}, {Op: "W", Watch: 0, Slow: true}},
							{{Op: "W", Watch: 0, Slow: true}, {Op: "W", Watch: 0}},
							{{Op: "W", Watch: 0, Slow: true}, {Op: "W", Watch: 1, Slow: true}},
						} {
							for _, stop := range []int{0, 1, len(ws)} {
								l := append([]Op{}, ws...)
								for i := 0; i < n; i++ {
									k := key("pods", []string{"n1", "n2"}[i/3%2], fmt.Sprintf("o%d", i/9), []string{"c1", "c2", ""}[i/6%3])
									l = append(l, Op{Op: []string{"C", "U", "D"}[i%3], Key: k, Content: huge})
								}
								for i := 0; i < 300 && stop == 1; i++ {
									l = append(l, Op{Op: []string{"C", "U", "D"}[i%3], Key: key("pods", "n1", fmt.Sprintf("s%d", i/3), "c2")})
								}
								for i := 0; i < stop; i++ {
									l = append(l, Op{Op: "S"})
								}
								if !emit(Case{Ops: l}) {
									return
								}
							}
						}
					}
				}, exec),
		},
	})
}
