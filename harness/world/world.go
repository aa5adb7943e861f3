// Package world closes the system around the real HTTP server: the real router and store, and one
// recording fake API server per cluster (an http.RoundTripper, no network).
package world

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"strings"
	"sync"

	"github.com/gorilla/mux"
	"github.com/sirupsen/logrus"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/client-go/kubernetes"
	"k8s.io/client-go/rest"
	"k8s.io/client-go/util/flowcontrol"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/log"
	"github.com/DaoCloud/ckube/server"
	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/store/memory"
)

func init() { Quiet() }

// Quiet silences the code's own logging.
func Quiet() {
	logrus.SetOutput(io.Discard)
	logrus.SetLevel(logrus.PanicLevel)
	log.AccessLog.SetOutput(io.Discard)
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stderr = f // the server prints the stacks of recovered panics
	}
	log.AccessLog.SetLevel(logrus.PanicLevel)
}

// UpReq is a request an API server received.
type UpReq struct {
	Cluster string
	Method  string
	Path    string
	RawQ    string
	Header  http.Header
	Body    string
}

func (u UpReq) String() string {
	return fmt.Sprintf("%s: %s %s?%s body=%q ct=%q", u.Cluster, u.Method, u.Path, u.RawQ, u.Body, u.Header.Get("Content-Type"))
}

// Up is a fake API server of one cluster.
type Up struct {
	Cluster string
	mu      sync.Mutex
	Reqs    []UpReq
	Handler func(r *http.Request, body []byte) (*http.Response, error)
}

func (u *Up) RoundTrip(r *http.Request) (*http.Response, error) {
	var body []byte
	if r.Body != nil {
		body, _ = io.ReadAll(r.Body)
		r.Body.Close()
	}
	u.mu.Lock()
	u.Reqs = append(u.Reqs, UpReq{u.Cluster, r.Method, r.URL.Path, r.URL.RawQuery, r.Header.Clone(), string(body)})
	h := u.Handler
	u.mu.Unlock()
	if h != nil {
		return h(r, body)
	}
	return Response(r, 200, `{"upstream":"`+u.Cluster+`"}`), nil
}

// Take returns and forgets the recorded requests.
func (u *Up) Take() []UpReq {
	u.mu.Lock()
	defer u.mu.Unlock()
	r := u.Reqs
	u.Reqs = nil
	return r
}

// Response builds an upstream JSON answer.
func Response(r *http.Request, code int, body string) *http.Response {
	return &http.Response{
		StatusCode: code, Status: fmt.Sprintf("%d %s", code, http.StatusText(code)),
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header:        http.Header{"Content-Type": {"application/json"}},
		Body:          io.NopCloser(strings.NewReader(body)),
		ContentLength: int64(len(body)), Request: r,
	}
}

// Client makes the cluster client whose traffic goes to u.
func (u *Up) Client() kubernetes.Interface { return ClientFor(u) }

// ClientFor makes a cluster client whose traffic goes to rt.
func ClientFor(rt http.RoundTripper) kubernetes.Interface {
	cli, err := kubernetes.NewForConfig(&rest.Config{Host: "http://upstream", Transport: rt,
		RateLimiter: flowcontrol.NewFakeAlwaysRateLimiter()})
	if err != nil {
		panic(err)
	}
	return cli
}

// World is a complete server.
type World struct {
	Store   store.Store
	Router  http.Handler
	Server  server.Server
	Ups     map[string]*Up
	Clients map[string]kubernetes.Interface
}

// GVR is shorthand.
func GVR(g, v, r string) store.GroupVersionResource {
	return store.GroupVersionResource{Group: g, Version: v, Resource: r}
}

// StdIndex is the documented example index configuration.
func StdIndex() map[string]string {
	return map[string]string{
		"namespace":  "{.metadata.namespace}",
		"name":       "{.metadata.name}",
		"labels":     "{.metadata.labels}",
		"created_at": "{.metadata.creationTimestamp}",
	}
}

// Proxy builds a proxy entry.
func Proxy(g, v, r, kind string, idx map[string]string) common.Proxy {
	return common.Proxy{Group: g, Version: v, Resource: r, ListKind: kind + "List", Index: idx}
}

// IndexConf is what a server start derives from the configuration.
func IndexConf(cfg common.Config) map[store.GroupVersionResource]map[string]string {
	m := map[store.GroupVersionResource]map[string]string{}
	for _, p := range cfg.Proxies {
		m[GVR(p.Group, p.Version, p.Resource)] = p.Index
	}
	return m
}

// New installs cfg (process-global) and builds a server for the clusters.
func New(cfg common.Config, clusters ...string) *World {
	c := cfg
	common.InitConfig(&c)
	w := &World{Ups: map[string]*Up{}, Clients: map[string]kubernetes.Interface{}}
	for _, cl := range clusters {
		u := &Up{Cluster: cl}
		w.Ups[cl] = u
		w.Clients[cl] = u.Client()
	}
	w.Reset(cfg)
	return w
}

// Reset gives the world a fresh store and server with the same clients (cheap).
func (w *World) Reset(cfg common.Config) {
	w.Store = memory.NewMemoryStore(IndexConf(cfg))
	w.Serve()
}

// Fork is a world with its own fresh store and server sharing the clients of w.
func (w *World) Fork(cfg common.Config) *World {
	n := &World{Ups: w.Ups, Clients: w.Clients}
	n.Reset(cfg)
	return n
}

// Serve builds the server over w.Store.
func (w *World) Serve() {
	w.Server = server.NewMuxServer("127.0.0.1:0", w.Clients, w.Store, func(r *mux.Router) { w.Router = r })
}

// Taken drains the requests seen by all API servers.
func (w *World) Taken() []UpReq {
	var res []UpReq
	for _, u := range w.Ups {
		res = append(res, u.Take()...)
	}
	return res
}

// Resp is a client-visible answer.
type Resp struct {
	Code   int
	Body   []byte
	Header http.Header
}

// Req makes a request; target is path plus raw query.
func Req(method, path string, q url.Values, body string, hdr ...string) *http.Request {
	var rd io.Reader
	if body != "" {
		rd = strings.NewReader(body)
	}
	r, err := http.NewRequest(method, "http://ckube", rd)
	if err != nil {
		panic(err)
	}
	if rd == nil {
		r.Body = http.NoBody
	}
	u, err := url.Parse(path)
	if err != nil {
		r.URL.Path = path
	} else {
		r.URL = u
	}
	if q != nil {
		r.URL.RawQuery = q.Encode()
	}
	r.RequestURI = r.URL.RequestURI()
	r.RemoteAddr = "192.0.2.1:1234"
	for i := 0; i+1 < len(hdr); i += 2 {
		r.Header.Set(hdr[i], hdr[i+1])
	}
	return r
}

// Do runs a request through the real router.
func (w *World) Do(r *http.Request) Resp {
	rec := httptest.NewRecorder()
	w.Router.ServeHTTP(rec, r)
	return Resp{rec.Code, rec.Body.Bytes(), rec.Header()}
}

// Get is a plain GET.
func (w *World) Get(path string, q url.Values) Resp { return w.Do(Req("GET", path, q, "")) }

// ListBody is a decoded list answer.
type ListBody struct {
	Kind       string            `json:"kind"`
	APIVersion string            `json:"apiVersion"`
	Metadata   map[string]any    `json:"metadata"`
	Items      []json.RawMessage `json:"items"`
}

// Item is the identity of a listed object.
type Item struct {
	Metadata struct {
		Name            string            `json:"name"`
		Namespace       string            `json:"namespace"`
		ResourceVersion string            `json:"resourceVersion"`
		Annotations     map[string]string `json:"annotations"`
		Labels          map[string]string `json:"labels"`
	} `json:"metadata"`
}

// Key is cluster/namespace/name of an item.
func (i Item) Key() string {
	return i.Metadata.Annotations["ckube.doacloud.io/cluster"] + "/" + i.Metadata.Namespace + "/" + i.Metadata.Name
}

// ParseList decodes a list answer strictly enough to tell a malformed one.
func ParseList(r Resp) (*ListBody, []Item, error) {
	if r.Code != 200 {
		return nil, nil, fmt.Errorf("status %d: %s", r.Code, clip(r.Body))
	}
	var l ListBody
	d := json.NewDecoder(bytes.NewReader(r.Body))
	if err := d.Decode(&l); err != nil {
		return nil, nil, fmt.Errorf("not JSON: %v: %s", err, clip(r.Body))
	}
	if d.More() {
		return nil, nil, fmt.Errorf("trailing data: %s", clip(r.Body))
	}
	if l.Items == nil {
		return &l, nil, fmt.Errorf("items is not an array: %s", clip(r.Body))
	}
	items := make([]Item, len(l.Items))
	for i, raw := range l.Items {
		if err := json.Unmarshal(raw, &items[i]); err != nil {
			return &l, nil, fmt.Errorf("item: %v", err)
		}
	}
	return &l, items, nil
}

func clip(b []byte) string {
	if len(b) > 300 {
		return string(b[:300]) + "…"
	}
	return string(b)
}

// Keys of items in order.
func Keys(items []Item) []string {
	r := make([]string, len(items))
	for i, it := range items {
		r[i] = it.Key()
	}
	return r
}

// Meta builds object metadata.
func Meta(ns, name string, labels map[string]string) metav1.ObjectMeta {
	return metav1.ObjectMeta{Namespace: ns, Name: name, Labels: labels}
}

// Clients makes the clients of some API servers.
func Clients(ups map[string]*Up) map[string]kubernetes.Interface {
	m := map[string]kubernetes.Interface{}
	for c, u := range ups {
		m[c] = u.Client()
	}
	return m
}
