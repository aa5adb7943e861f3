// Package gen builds populations shared by several checks.
package gen

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"strings"
	"time"

	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	"ckubemc/ref"
	"ckubemc/world"

	"github.com/DaoCloud/ckube/common"
	"github.com/DaoCloud/ckube/page"
	"github.com/DaoCloud/ckube/store"
	"github.com/DaoCloud/ckube/watcher"
)

// Spec of an object.
type Spec struct {
	C, N, O string // cluster, namespace, name
	L       map[string]string
	Del     bool
	K       map[string]string // values for configured indexes (carried in annotations)
}

// IndexKeys makes an index configuration whose key k has the value of annotation k.
func IndexKeys(keys ...string) map[string]string {
	m := map[string]string{"namespace": "{.metadata.namespace}", "name": "{.metadata.name}"}
	for _, k := range keys {
		m[k] = fmt.Sprintf(`{.metadata.annotations.%s}`, k)
	}
	return m
}

func (s Spec) meta() metav1.ObjectMeta {
	m := world.Meta(s.N, s.O, s.L)
	if len(s.K) > 0 {
		m.Annotations = map[string]string{}
		for k, v := range s.K {
			m.Annotations[k] = v
		}
	}
	if s.Del {
		t := metav1.NewTime(time.Unix(1600000000, 0))
		m.DeletionTimestamp = &t
	}
	return m
}

// Pod builds a typed object.
func (s Spec) Pod() *corev1.Pod { return &corev1.Pod{ObjectMeta: s.meta()} }

// Custom builds an object of a custom type.
func (s Spec) Custom() *watcher.ObjType {
	o := &watcher.ObjType{ObjectMeta: s.meta(), Data: map[string]interface{}{"spec": map[string]interface{}{}}}
	o.Kind, o.APIVersion = "Widget", "x.io/v1"
	return o
}

// Ref is the object as the reference models see it.
func (s Spec) Ref(keys ...string) ref.Obj {
	ix := map[string]string{"cluster": s.C, "namespace": s.N, "name": s.O, "is_deleted": fmt.Sprint(s.Del)}
	for _, k := range keys {
		ix[k] = s.K[k]
	}
	return ref.Obj{Index: ix, Labels: s.L, Key: s.C + "/" + s.N + "/" + s.O}
}

// Key is cluster/namespace/name.
func (s Spec) Key() string { return s.C + "/" + s.N + "/" + s.O }

// Pods and Widgets are the two standard cached types.
var (
	Pods    = world.GVR("", "v1", "pods")
	Widgets = world.GVR("x.io", "v1", "widgets")
)

// Config caches pods and widgets with the given index keys.
func Config(def string, keys ...string) common.Config {
	return common.Config{DefaultCluster: def, Proxies: []common.Proxy{
		world.Proxy("", "v1", "pods", "Pod", IndexKeys(keys...)),
		world.Proxy("x.io", "v1", "widgets", "Widget", IndexKeys(keys...)),
	}}
}

// Fill adds the objects as pods and/or widgets.
func Fill(s store.Store, specs []Spec, pods, widgets bool) {
	for _, sp := range specs {
		if pods {
			_ = s.OnResourceAdded(Pods, sp.C, sp.Pod())
		}
		if widgets {
			_ = s.OnResourceAdded(Widgets, sp.C, sp.Custom())
		}
	}
}

// Keys of queried items.
func Keys(items []interface{}) []string {
	r := make([]string, len(items))
	for i, it := range items {
		if o, ok := it.(metav1.Object); ok {
			r[i] = page.GetObjectCluster(o) + "/" + o.GetNamespace() + "/" + o.GetName()
		} else {
			r[i] = fmt.Sprintf("%T", it)
		}
	}
	return r
}

// RefKeys of reference objects.
func RefKeys(objs []ref.Obj) []string {
	r := make([]string, len(objs))
	for i, o := range objs {
		r[i] = o.Key
	}
	return r
}

// Encode writes a query the way the wire format documents it, independently of the client library:
// JSON, unpadded base64 (characters outside the alphabet avoided by \u escapes), 56-character parts.
func Encode(p page.Paginate) string {
	b, _ := json.Marshal(p)
	if string(b) == "{}" {
		return ""
	}
	return EncodeText(string(b))
}

// EncodeText encodes any JSON text.
func EncodeText(b string) string {
	var sb strings.Builder
	for _, r := range b {
		if r == '~' || r == '?' || r >= 0x7f {
			if r > 0xffff {
				r -= 0x10000
				fmt.Fprintf(&sb, `\u%04x\u%04x`, 0xd800+(r>>10), 0xdc00+(r&0x3ff))
			} else {
				fmt.Fprintf(&sb, `\u%04x`, r)
			}
		} else {
			sb.WriteRune(r)
		}
	}
	e := base64.RawStdEncoding.EncodeToString([]byte(sb.String()))
	if len(e) <= 56 {
		return "ckube.daocloud.io/query notin (" + e + ")"
	}
	var parts []string
	for i := 0; i < len(e); i += 56 {
		j := i + 56
		if j > len(e) {
			j = len(e)
		}
		parts = append(parts, fmt.Sprintf("%04d.%s", i, e[i:j]))
	}
	return "ckube.daocloud.io/query notin (" + strings.Join(parts, ",") + ")"
}
