From a6683a6b0236732595ed929bc760d9a75cfe7996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:44 +0000
Subject: [PATCH 01/68] fix: encode an empty cached list as [] instead of null

---
 api/proxy.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/api/proxy.go b/api/proxy.go
index 2c7ce8b..88427e0 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -298,6 +298,10 @@ func Proxy(r *ReqContext) interface{} {
 		items = res.Items
 		total = res.Total
 	}
+	if items == nil {
+		// an empty list is encoded as [], never as null
+		items = make([]interface{}, 0)
+	}
 	apiVersion := ""
 	if gvr.Group == "" {
 		apiVersion = gvr.Version
-- 
2.43.0


From e1262740b009608846d11ac5b675763e760b6f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:47 +0000
Subject: [PATCH 02/68] fix: page or page_size 0 means no paging, so nothing
 remains

---
 api/proxy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/proxy.go b/api/proxy.go
index 88427e0..507520f 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -309,7 +309,7 @@ func Proxy(r *ReqContext) interface{} {
 		apiVersion = gvr.Group + "/" + gvr.Version
 	}
 	var remainCount int64
-	if paginate.Page == 0 && paginate.PageSize == 0 {
+	if paginate.Page == 0 || paginate.PageSize == 0 {
 		// all item returned
 		remainCount = 0
 	} else {
-- 
2.43.0


From 0d119c96373af90400b8ed20fa2397b1e031b4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:48 +0000
Subject: [PATCH 03/68] fix: do not panic on page 0 with a page size, reject
 negative pages

---
 api/proxy.go           | 8 ++++++++
 store/memory/memory.go | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/api/proxy.go b/api/proxy.go
index 507520f..5a66a98 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -216,6 +216,14 @@ func Proxy(r *ReqContext) interface{} {
 	if resourceName != "" {
 		return ProxySingleResources(r, gvr, cluster, namespace, resourceName)
 	}
+	if paginate.Page < 0 || paginate.PageSize < 0 {
+		return errorProxy(r.Writer, v1.Status{
+			Status:  v1.StatusFailure,
+			Message: "query error",
+			Reason:  "page and page_size must not be negative",
+			Code:    400,
+		})
+	}
 	// default only get default cluster's resources,
 	// If you want to get all clusters' resources,
 	// please call paginate.Clusters() before fetch resources
diff --git a/store/memory/memory.go b/store/memory/memory.go
index 84c3ab8..7f08c3b 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -288,6 +288,14 @@ func (m *memoryStore) Get(gvr store.GroupVersionResource, cluster string, namesp
 
 func (m *memoryStore) Query(gvr store.GroupVersionResource, query store.Query) store.QueryResult {
 	res := store.QueryResult{}
+	if query.Page < 0 || query.PageSize < 0 {
+		res.Error = fmt.Errorf("page and page_size must not be negative")
+		return res
+	}
+	if query.Page == 0 {
+		// no paging
+		query.PageSize = 0
+	}
 	resources := make([]store.Object, 0)
 	m.resourceMap.Get(gvr).ForEach(func(cname clusterName, c *syncResourceStore[
 		namespaceName,
-- 
2.43.0


From d2d6a7b9e90a02722b2d6fcf96b97aac1102395e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:50 +0000
Subject: [PATCH 04/68] fix: huge page numbers and sizes must not overflow

---
 api/proxy.go           | 8 ++++++++
 store/memory/memory.go | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/api/proxy.go b/api/proxy.go
index 5a66a98..b2e95ff 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -7,6 +7,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"math"
 	"net/http"
 	"reflect"
 	"sort"
@@ -224,6 +225,13 @@ func Proxy(r *ReqContext) interface{} {
 			Code:    400,
 		})
 	}
+	// anything larger is beyond the end as well, keep the products below within 64 bits
+	if paginate.Page > math.MaxInt32 {
+		paginate.Page = math.MaxInt32
+	}
+	if paginate.PageSize > math.MaxInt32 {
+		paginate.PageSize = math.MaxInt32
+	}
 	// default only get default cluster's resources,
 	// If you want to get all clusters' resources,
 	// please call paginate.Clusters() before fetch resources
diff --git a/store/memory/memory.go b/store/memory/memory.go
index 7f08c3b..6363c8e 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"io"
+	"math"
 	"sort"
 	"strconv"
 	"strings"
@@ -323,6 +324,13 @@ func (m *memoryStore) Query(gvr store.GroupVersionResource, query store.Query) s
 		return res
 	}
 	res.Total = l
+	// anything larger is beyond the end as well, keep the products below within 64 bits
+	if query.PageSize > math.MaxInt32 {
+		query.PageSize = math.MaxInt32
+	}
+	if query.Page > math.MaxInt32 {
+		query.Page = math.MaxInt32
+	}
 	var start, end int64
 	if query.PageSize == 0 {
 		// all resources
-- 
2.43.0


From 60eced5654e859578fdfc09ffef29f190f28ec93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:53 +0000
Subject: [PATCH 05/68] fix: total of an unpaged list with a page size

---
 page/page.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/page/page.go b/page/page.go
index b1c7b5e..21067b1 100644
--- a/page/page.go
+++ b/page/page.go
@@ -345,6 +345,10 @@ func MakeupResPaginate(l v1.ListInterface, page Paginate) Paginate {
 		remain = &i
 	}
 	page.Total = *remain + (page.Page-1)*page.PageSize + int64(items)
+	if page.Page == 0 {
+		// no paging, nothing was skipped
+		page.Total = *remain + int64(items)
+	}
 	return page
 }
 
-- 
2.43.0


From 3dbb004c6d265dd64b61a1fca21529f3045da24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:55 +0000
Subject: [PATCH 06/68] fix: objects with equal sort keys must have a fixed
 order

---
 store/memory/memory.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/store/memory/memory.go b/store/memory/memory.go
index 6363c8e..ba4f838 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -267,7 +267,13 @@ func sortObjs(objs []store.Object, s string) ([]store.Object, error) {
 			}
 			return r
 		}
-		return true
+		// equal under all requested keys: keep a fixed order, or pages would overlap
+		for _, k := range []string{"cluster", "namespace", "name"} {
+			if objs[i].Index[k] != objs[j].Index[k] {
+				return objs[i].Index[k] < objs[j].Index[k]
+			}
+		}
+		return false
 	})
 	return objs, sortErr
 }
-- 
2.43.0


From f229ca4d589baec572db3561e5e09f27d0006eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:57 +0000
Subject: [PATCH 07/68] fix: report malformed sorts and non-numbers instead of
 returning an unsorted list

---
 store/memory/memory.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/store/memory/memory.go b/store/memory/memory.go
index ba4f838..2d6bd41 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -198,7 +198,7 @@ func sortObjs(objs []store.Object, s string) ([]store.Object, error) {
 		if strings.Contains(s, " ") {
 			parts := strings.Split(s, " ")
 			if len(parts) > 2 {
-				return objs, nil
+				return objs, fmt.Errorf("error sort format `%s`", s)
 			}
 			if len(parts) == 2 {
 				switch parts[1] {
@@ -234,6 +234,15 @@ func sortObjs(objs []store.Object, s string) ([]store.Object, error) {
 		}
 		sorts = append(sorts, st)
 	}
+	for _, o := range objs {
+		for _, s := range sorts {
+			if s.typ == constants.KeyTypeInt {
+				if f, err := strconv.ParseFloat(o.Index[s.key], 64); err != nil || math.IsNaN(f) {
+					return objs, fmt.Errorf("value of `%s` can not convert to number", s.key)
+				}
+			}
+		}
+	}
 	var sortErr error = nil
 	sort.Slice(objs, func(i, j int) bool {
 		for _, s := range sorts {
-- 
2.43.0


From 74cdfa0150dc200c893123b0a98f90c85ef3f1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:35 +0000
Subject: [PATCH 08/68] fix: a trailing separator is not part of the last
 search condition

---
 page/page.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/page/page.go b/page/page.go
index 21067b1..7c54678 100644
--- a/page/page.go
+++ b/page/page.go
@@ -29,6 +29,10 @@ func (p *Paginate) Match(m map[string]string) (bool, error) {
 
 func (p *Paginate) SearchParts() []string {
 	search := p.Search
+	if n := len(search) - len(strings.TrimRight(search, string(constants.SearchPartsSep))); n%2 == 1 {
+		// an unpaired separator at the end closes the last part, it does not belong to it
+		search = search[:len(search)-1]
+	}
 	parts := []string{}
 	start := 0
 	l := len(search)
-- 
2.43.0


From 51331887f00ad6c943382bf8bf2f28a0877b615c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:38 +0000
Subject: [PATCH 09/68] fix: match values containing quotes, backslashes or
 control characters literally

---
 page/page.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/page/page.go b/page/page.go
index 7c54678..912ef3e 100644
--- a/page/page.go
+++ b/page/page.go
@@ -5,7 +5,6 @@ import (
 	"encoding/json"
 	"fmt"
 	"reflect"
-	"strconv"
 	"strings"
 
 	"github.com/DaoCloud/ckube/common/constants"
@@ -62,6 +61,11 @@ func (p *Paginate) SearchParts() []string {
 	return ps
 }
 
+// quote makes a double quote match the begin or the end of v, and leaves v itself as it is.
+func quote(v string) string {
+	return `"` + v + `"`
+}
+
 func parseValue(v string) (string, bool) {
 	if strings.HasPrefix(v, "!") {
 		return v[1:], true
@@ -119,7 +123,7 @@ func Match(m map[string]string, searchParts []string) (bool, error) {
 		if v, ok := m[key]; !ok {
 			return false, fmt.Errorf("unexpected search key: %s", key)
 		} else {
-			vv := strings.Contains(strconv.Quote(v), value)
+			vv := strings.Contains(quote(v), value)
 			if reverse {
 				return !vv, nil
 			}
@@ -128,7 +132,7 @@ func Match(m map[string]string, searchParts []string) (bool, error) {
 	}
 	// fuzzy search
 	for _, v := range m {
-		vv := strings.Contains(strconv.Quote(v), value)
+		vv := strings.Contains(quote(v), value)
 		if reverse {
 			if vv {
 				return false, nil
-- 
2.43.0


From 0eb9f4878b4d04372aafda4cbdba1314eccfacd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:40 +0000
Subject: [PATCH 10/68] fix: keep every advanced condition, however spaced,
 when restricting a query

---
 page/page.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/page/page.go b/page/page.go
index 912ef3e..135ec40 100644
--- a/page/page.go
+++ b/page/page.go
@@ -151,9 +151,13 @@ func (p *Paginate) SearchSelector() (*v1.LabelSelector, error) {
 	parts := p.SearchParts()
 	search := ""
 	for _, part := range parts {
+		part = strings.TrimSpace(part)
 		if strings.HasPrefix(part, constants.AdvancedSearchPrefix) {
+			if search != "" {
+				// all advanced parts apply
+				part = search + "," + part[len(constants.AdvancedSearchPrefix):]
+			}
 			search = part
-			break
 		}
 	}
 	if search == "" {
@@ -176,7 +180,7 @@ func (p *Paginate) SetSearchSelector(selector *v1.LabelSelector) error {
 	}
 	pps := []string{constants.AdvancedSearchPrefix + sstr}
 	for _, part := range parts {
-		if !strings.HasPrefix(part, constants.AdvancedSearchPrefix) {
+		if !strings.HasPrefix(strings.TrimSpace(part), constants.AdvancedSearchPrefix) {
 			pps = append(pps, part)
 		}
 	}
-- 
2.43.0


From 75eac5dbd0c97950e9e92a24fa3ec83f3effb136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 11/68] fix: recognise a cluster or namespace restriction
 written as an equality

---
 page/page.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/page/page.go b/page/page.go
index 135ec40..d208b25 100644
--- a/page/page.go
+++ b/page/page.go
@@ -218,6 +218,7 @@ func (p *Paginate) Namespaces(nss []string) error {
 		}
 	}
 	s.MatchExpressions = mes
+	delete(s.MatchLabels, nsKey)
 	return p.SetSearchSelector(s)
 }
 
@@ -245,6 +246,7 @@ func (p *Paginate) Clusters(css []string) error {
 		}
 	}
 	s.MatchExpressions = mes
+	delete(s.MatchLabels, nsKey)
 	return p.SetSearchSelector(s)
 }
 
@@ -262,6 +264,9 @@ func (p *Paginate) GetClusters() []string {
 			return r.Values
 		}
 	}
+	if c, ok := s.MatchLabels[nsKey]; ok {
+		return []string{c}
+	}
 	return nil
 }
 
-- 
2.43.0


From cc809f980c0f5c0ce71cefc5722966ac5a4cf60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:46 +0000
Subject: [PATCH 12/68] fix: keep search parts that start with a semicolon
 intact when joining

---
 page/page.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/page/page.go b/page/page.go
index d208b25..9882c39 100644
--- a/page/page.go
+++ b/page/page.go
@@ -193,8 +193,13 @@ func (p *Paginate) SetSearchWithParts(parts []string) {
 		return strings.ReplaceAll(s, ";", ";;")
 	}
 	pps := []string{}
-	for _, part := range parts {
-		pps = append(pps, doubleSep(part))
+	for i, part := range parts {
+		part = doubleSep(part)
+		if i > 0 && strings.HasPrefix(part, string(constants.SearchPartsSep)) {
+			// keep it apart from the separator before it, leading spaces do not matter
+			part = " " + part
+		}
+		pps = append(pps, part)
 	}
 	p.Search = strings.Join(pps, ";")
 }
-- 
2.43.0


From 146987f241129acb07dea41675e4140cc8bc79f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:48 +0000
Subject: [PATCH 13/68] fix: keep both values of a repeated equality in a label
 selector

---
 kube/label.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kube/label.go b/kube/label.go
index e3df13e..e7ee9d8 100644
--- a/kube/label.go
+++ b/kube/label.go
@@ -65,6 +65,11 @@ func ParseToLabelSelector(selector string) (*v1.LabelSelector, error) {
 			if !ok {
 				return nil, fmt.Errorf("equals operator has exactly one value but it cannot be retrieved")
 			}
+			if old, ok := labelSelector.MatchLabels[req.Key()]; ok && old != val {
+				// both must hold, so neither may replace the other
+				op = v1.LabelSelectorOpIn
+				break
+			}
 			labelSelector.MatchLabels[req.Key()] = val
 			continue
 		case selection.In:
-- 
2.43.0


From 632c43719189b24485494bbb5e6d6910acf2c8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:42 +0000
Subject: [PATCH 14/68] fix: report an empty advanced condition instead of
 dropping it

---
 page/page.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/page/page.go b/page/page.go
index 9882c39..ed0cbdc 100644
--- a/page/page.go
+++ b/page/page.go
@@ -167,7 +167,7 @@ func (p *Paginate) SearchSelector() (*v1.LabelSelector, error) {
 		return nil, fmt.Errorf("")
 	}
 	if len(constants.AdvancedSearchPrefix) == len(search) {
-		return &s, nil
+		return nil, fmt.Errorf("search format error")
 	}
 	return kube.ParseToLabelSelector(search[len(constants.AdvancedSearchPrefix):])
 }
-- 
2.43.0


From 3934f770350a648b3f791fa80046e6f62e26b3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:45 +0000
Subject: [PATCH 15/68] fix: do not list all clusters when the default cluster
 is no valid label value

---
 api/proxy.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api/proxy.go b/api/proxy.go
index b2e95ff..2ef2819 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -239,6 +239,9 @@ func Proxy(r *ReqContext) interface{} {
 		err = paginate.Clusters([]string{common.GetConfig().DefaultCluster})
 		if err != nil {
 			log.Errorf("set cluster error: %v", err)
+			// a name like admin@kubernetes can not be a selector value, never answer for all clusters instead
+			paginate.SetSearchWithParts(append(paginate.SearchParts(),
+				fmt.Sprintf("cluster=\"%s\"", common.GetConfig().DefaultCluster)))
 		}
 	}
 	log.Debugf("got paginate %v", paginate)
-- 
2.43.0


From 03bab36f404bdb00543e87f40fc09502383d55b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:48 +0000
Subject: [PATCH 16/68] fix: encode queries with any characters as valid label
 values

---
 page/page.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/page/page.go b/page/page.go
index ed0cbdc..a75389c 100644
--- a/page/page.go
+++ b/page/page.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"reflect"
 	"strings"
+	"unicode/utf16"
 
 	"github.com/DaoCloud/ckube/common/constants"
 	"github.com/DaoCloud/ckube/kube"
@@ -315,11 +316,30 @@ func QueryDeleteOptions(options v1.DeleteOptions, cluster string) (v1.DeleteOpti
 	return options, nil
 }
 
+// asciiJSON escapes the characters of a JSON text whose base64 encoding may contain '+' or '/',
+// which are not allowed in label values. They only occur inside of strings.
+func asciiJSON(bs []byte) []byte {
+	res := make([]byte, 0, len(bs))
+	for _, r := range string(bs) {
+		switch {
+		case r > 0xffff:
+			hi, lo := utf16.EncodeRune(r)
+			res = append(res, fmt.Sprintf("\\u%04x\\u%04x", hi, lo)...)
+		case r > '}' || r == '?':
+			res = append(res, fmt.Sprintf("\\u%04x", r)...)
+		default:
+			res = append(res, byte(r))
+		}
+	}
+	return res
+}
+
 func QueryListOptions(options v1.ListOptions, page Paginate) (v1.ListOptions, error) {
 	bs, _ := json.Marshal(page)
 	if string(bs) == "{}" {
 		return options, nil
 	}
+	bs = asciiJSON(bs)
 	s := base64.StdEncoding.WithPadding(base64.NoPadding).EncodeToString(bs)
 	//if options.LabelSelector == "" {
 	//	options.LabelSelector = fmt.Sprintf("%s notin (%s)", common.PaginateKey, s)
-- 
2.43.0


From 01fe6e583b25d876482693d40e6664477c313d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:51 +0000
Subject: [PATCH 17/68] fix: a query replaces an earlier one given as an
 equality

---
 page/page.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/page/page.go b/page/page.go
index a75389c..54b9400 100644
--- a/page/page.go
+++ b/page/page.go
@@ -360,6 +360,7 @@ func QueryListOptions(options v1.ListOptions, page Paginate) (v1.ListOptions, er
 		}
 	}
 	ls.MatchExpressions = mes
+	delete(ls.MatchLabels, constants.PaginateKey)
 	sstr := v1.FormatLabelSelector(ls)
 	if sstr == "<error>" {
 		return options, fmt.Errorf("parse selector %v error", ls)
-- 
2.43.0


From 28e9ed30287cd848c7afdedd722cb1ff6384a0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:55 +0000
Subject: [PATCH 18/68] fix: merge the parts of long queries in order

---
 kube/label.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kube/label.go b/kube/label.go
index e7ee9d8..1875743 100644
--- a/kube/label.go
+++ b/kube/label.go
@@ -32,6 +32,10 @@ func MergeValues(values []string) (string, error) {
 		return values[0], nil
 	}
 	sort.Strings(values)
+	// positions from 10000 on have more digits
+	sort.SliceStable(values, func(i, j int) bool {
+		return strings.Index(values[i], ".") < strings.Index(values[j], ".")
+	})
 	b := strings.Builder{}
 	for _, v := range values {
 		parts := strings.Split(v, ".")
-- 
2.43.0


From bf6fe69243989dbd777f281f49f0d58f1d2b73f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 19/68] fix: forward the body of delete requests

---
 api/proxy.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/api/proxy.go b/api/proxy.go
index 2ef2819..09c5080 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -120,6 +120,8 @@ func parsePaginateAndLabelsAndClean(r *http.Request) (*page.Paginate, *v1.LabelS
 		body := r.Body
 		opts, err := io.ReadAll(body)
 		if err == nil {
+			// it was read, forward it nevertheless
+			r.Body = wrapReader(bytes.NewBuffer(opts))
 			options := v1.DeleteOptions{}
 			_ = json.Unmarshal(opts, &options)
 			if len(options.DryRun) > 0 && strings.HasPrefix(options.DryRun[0], clusterPrefix) {
-- 
2.43.0


From 9c9adf72809d548832953d36b26a3bbc934de68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 20/68] fix: find services by the pods of exactly the requested
 deployment and cluster

---
 api/extend/deploy2service.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/api/extend/deploy2service.go b/api/extend/deploy2service.go
index 1dada9e..637a63f 100644
--- a/api/extend/deploy2service.go
+++ b/api/extend/deploy2service.go
@@ -34,7 +34,8 @@ func Deploy2Service(r *api.ReqContext) interface{} {
 	if cluster == "" {
 		cluster = common.GetConfig().DefaultCluster
 	}
-	p := page.Paginate{Search: "name=" + dep}
+	// pod names only start with a part of long deployment names, so the owner decides
+	p := page.Paginate{}
 	_ = p.Clusters([]string{cluster})
 	res := r.Store.Query(podGvr, store.Query{
 		Namespace: ns,
@@ -47,7 +48,7 @@ func Deploy2Service(r *api.ReqContext) interface{} {
 	for _, podIf := range res.Items {
 		if pod, ok := podIf.(v12.Object); ok {
 			depName := getDeploymentName(pod)
-			if depName != "" {
+			if depName == dep && page.GetObjectCluster(pod) == cluster {
 				labels = pod.GetLabels()
 				break
 			}
@@ -63,6 +64,9 @@ func Deploy2Service(r *api.ReqContext) interface{} {
 		return res.Error
 	}
 	for _, svcIf := range res.Items {
+		if o, ok := svcIf.(v12.Object); ok && page.GetObjectCluster(o) != cluster {
+			continue
+		}
 		svc := &v1.Service{}
 		if s, ok := svcIf.(*watcher.ObjType); ok {
 			bs, _ := json.Marshal(s)
@@ -70,7 +74,7 @@ func Deploy2Service(r *api.ReqContext) interface{} {
 		} else {
 			svc = svcIf.(*v1.Service)
 		}
-		if svc.Spec.Selector != nil && utils.IsSubsetOf(svc.Spec.Selector, labels) {
+		if len(svc.Spec.Selector) != 0 && utils.IsSubsetOf(svc.Spec.Selector, labels) {
 			services = append(services, svc)
 		}
 	}
-- 
2.43.0


From b5d749f23b43a8b69fa959f9b5300bdf9f03ea31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:39 +0000
Subject: [PATCH 21/68] fix: derive the kind of a resource by removing the List
 suffix only

---
 watcher/watcher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index 5a205ab..d4f820d 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -115,7 +115,7 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 	gvk := schema.GroupVersionKind{
 		Group:   r.Group,
 		Version: r.Version,
-		Kind:    strings.TrimRight(common.GetGVRKind(r.Group, r.Version, r.Resource), "List"),
+		Kind:    strings.TrimSuffix(common.GetGVRKind(r.Group, r.Version, r.Resource), "List"),
 	}
 	gv := schema.GroupVersion{
 		Group:   r.Group,
-- 
2.43.0


From 259714eb15a1207f38d9e8fb946caa655add8b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:42 +0000
Subject: [PATCH 22/68] fix: keep the exact numbers of custom resources

---
 watcher/watcher.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index d4f820d..c66b97d 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -1,6 +1,7 @@
 package watcher
 
 import (
+	"bytes"
 	"context"
 	"encoding/json"
 	"fmt"
@@ -49,9 +50,12 @@ type ObjType struct {
 	Data          map[string]interface{}
 }
 
-func (o *ObjType) UnmarshalJSON(bytes []byte) error {
+func (o *ObjType) UnmarshalJSON(bs []byte) error {
 	m := map[string]interface{}{}
-	_ = json.Unmarshal(bytes, &m)
+	// keep numbers as they are, not all of them are exact as float64
+	d := json.NewDecoder(bytes.NewReader(bs))
+	d.UseNumber()
+	_ = d.Decode(&m)
 	if v, ok := m["apiVersion"]; ok {
 		o.APIVersion = v.(string)
 	}
-- 
2.43.0


From 7a09ab038c8416d090dbc490ae3494b3be822463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:45 +0000
Subject: [PATCH 23/68] fix: failed watch connections must not empty the cache,
 quiet ones must

---
 watcher/watcher.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index c66b97d..73ac612 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -153,6 +153,8 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 			url = fmt.Sprintf("/apis/%s/%s/%s?watch=true", r.Group, r.Version, r.Resource)
 		}
 		first := true
+		// a connection that stays quiet for that long has no objects to report
+		quiet := time.After(time.Minute)
 		ww, err := rt.Get().RequestURI(url).Timeout(time.Hour).Watch(ctx)
 		if err != nil {
 			log.Errorf("cluster(%s): create watcher for %s error: %v", cluster, url, err)
@@ -162,7 +164,7 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 			for {
 				select {
 				case rr, open := <-ww.ResultChan():
-					if first {
+					if first && open && rr.Type != watch.Error {
 						// only clean resource at the first time
 						// to avoid the resources gone after server break.
 						_ = w.store.Clean(r, cluster)
@@ -177,6 +179,7 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 						case watch.Deleted:
 							_ = w.store.OnResourceDeleted(r, cluster, rr.Object)
 						case watch.Error:
+							quiet = nil
 							log.Warnf("cluster(%s): watch stream(%v) error: %v", cluster, r, rr.Object)
 						}
 					} else {
@@ -185,6 +188,11 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 						time.Sleep(time.Second * 3)
 						break resultChan
 					}
+				case <-quiet:
+					if first {
+						_ = w.store.Clean(r, cluster)
+						first = false
+					}
 				case <-w.stop:
 					ww.Stop()
 					cancel()
-- 
2.43.0


From 2943208cf0e5d30ca2bd350f9d9806d10c702983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 24/68] fix: do not register kinds while other goroutines
 decode objects

---
 watcher/watcher.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index 73ac612..81c9394 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -12,6 +12,7 @@ import (
 	v1 "k8s.io/apimachinery/pkg/apis/meta/v1"
 	"k8s.io/apimachinery/pkg/runtime"
 	"k8s.io/apimachinery/pkg/runtime/schema"
+	"k8s.io/apimachinery/pkg/runtime/serializer"
 	"k8s.io/apimachinery/pkg/watch"
 	"k8s.io/client-go/kubernetes/scheme"
 	"k8s.io/client-go/rest"
@@ -27,6 +28,7 @@ type watcher struct {
 	store          store.Store
 	stop           chan struct{}
 	lock           sync.Mutex
+	scheme         *runtime.Scheme
 	Watcher
 }
 
@@ -115,7 +117,8 @@ func (o ObjType) DeepCopyObject() runtime.Object {
 	}
 }
 
-func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
+// registerKind must not run while objects are being decoded.
+func (w *watcher) registerKind(r store.GroupVersionResource) {
 	gvk := schema.GroupVersionKind{
 		Group:   r.Group,
 		Version: r.Version,
@@ -126,18 +129,20 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 		Version: r.Version,
 	}
 	w.lock.Lock()
-	if _, ok := scheme.Scheme.KnownTypes(gv)[gvk.Kind]; !ok {
-		scheme.Scheme.AddKnownTypeWithName(gvk, &ObjType{})
+	if _, ok := w.scheme.KnownTypes(gv)[gvk.Kind]; !ok {
+		w.scheme.AddKnownTypeWithName(gvk, &ObjType{})
 	}
 	w.lock.Unlock()
+}
+
+func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 	config := w.clusterConfigs[cluster]
 
 	config.GroupVersion = &schema.GroupVersion{
 		Group:   r.Group,
 		Version: r.Version,
 	}
-	scheme.Codecs.UniversalDeserializer()
-	config.NegotiatedSerializer = scheme.Codecs.WithoutConversion()
+	config.NegotiatedSerializer = serializer.NewCodecFactory(w.scheme).WithoutConversion()
 	rt, _ := rest.RESTClientFor(&config)
 	for {
 		select {
@@ -205,6 +210,15 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 }
 
 func (w *watcher) Start() error {
+	// an own scheme, because the global one is read by others while kinds are added here
+	w.scheme = runtime.NewScheme()
+	v1.AddToGroupVersion(w.scheme, schema.GroupVersion{Version: "v1"})
+	if err := scheme.AddToScheme(w.scheme); err != nil {
+		return err
+	}
+	for _, r := range w.resources {
+		w.registerKind(r)
+	}
 	for _, r := range w.resources {
 		for c := range w.clusterConfigs {
 			go w.watchResources(r, c)
-- 
2.43.0


From 1a188e28c3a331d304e428d0399a821b623be772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:51 +0000
Subject: [PATCH 25/68] fix: relay watch streams byte by byte exactly, up to
 the last one

---
 api/proxy.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index 09c5080..5cb8d65 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -468,12 +468,12 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 	buf := bytes.NewBuffer([]byte{})
 	for {
 		t := make([]byte, 1)
-		_, err := reader.Read(t)
+		n, err := reader.Read(t)
+		buf.Write(t[:n])
 		if err != nil {
 			_, _ = r.Writer.Write(buf.Bytes())
 			return nil
 		}
-		buf.Write(t)
 		if t[0] == '\n' {
 			_, _ = r.Writer.Write(buf.Bytes())
 			buf.Reset()
-- 
2.43.0


From 5cd5d7f2f1c8592893f14c924f592ad0ad5c1914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:54 +0000
Subject: [PATCH 26/68] fix: end a relayed watch when its client is gone

---
 api/proxy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/api/proxy.go b/api/proxy.go
index 5cb8d65..225f825 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -453,7 +453,7 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 	u := r.Request.URL.String()
 	log.Debugf("proxyPass url: %s", u)
 	timeout := 30 * time.Minute
-	ctx, cancel := context.WithTimeout(context.Background(), timeout)
+	ctx, cancel := context.WithTimeout(r.Request.Context(), timeout)
 	defer cancel()
 	reader, err := getRequest(r, cluster, timeout).RequestURI(u).Stream(ctx)
 	if err != nil {
-- 
2.43.0


From 4f6c053dac19746f1d526223182bafb07e2e2d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:58 +0000
Subject: [PATCH 27/68] fix: do not change the time limit of other requests

---
 api/proxy.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/api/proxy.go b/api/proxy.go
index 225f825..ad69c2c 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -488,6 +488,9 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 
 func getRequest(r *ReqContext, cluster string, timeout time.Duration) *rest.Request {
 	c := r.ClusterClients[cluster].Discovery().RESTClient().(*rest.RESTClient)
+	// the time limit is for this request only, the client is shared with all others
+	rc, hc := *c, *c.Client
+	rc.Client, c = &hc, &rc
 	c.Client.Timeout = timeout
 	var req *rest.Request
 	switch r.Request.Method {
-- 
2.43.0


From 8615d38b089f0e535f01ee78d3487ebf5ad97a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 28/68] fix: swap store and clients together and without a race

---
 server/server.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/server/server.go b/server/server.go
index 2f87510..f616d45 100644
--- a/server/server.go
+++ b/server/server.go
@@ -7,6 +7,7 @@ import (
 	"net/http"
 	"runtime/debug"
 	"strings"
+	"sync"
 	"time"
 
 	v1 "k8s.io/apimachinery/pkg/apis/meta/v1"
@@ -35,6 +36,7 @@ type muxServer struct {
 	server         *http.Server
 	store          store.Store
 	clusterClients map[string]kubernetes.Interface
+	lock           sync.RWMutex // for store and clusterClients
 }
 
 type statusWriter struct {
@@ -117,6 +119,8 @@ func (m *muxServer) Stop() error {
 }
 
 func (m *muxServer) ResetStore(s store.Store, clis map[string]kubernetes.Interface) {
+	m.lock.Lock()
+	defer m.lock.Unlock()
 	m.store = s
 	m.clusterClients = clis
 }
@@ -162,9 +166,12 @@ func (m *muxServer) registerRoutes(router *mux.Router, handleRoutes []route) {
 						return
 					}
 				}
+				m.lock.RLock()
+				clis, s := m.clusterClients, m.store
+				m.lock.RUnlock()
 				var res = route.handler(&api.ReqContext{
-					ClusterClients: m.clusterClients,
-					Store:          m.store,
+					ClusterClients: clis,
+					Store:          s,
 					Request:        r,
 					Writer:         writer,
 				})
-- 
2.43.0


From 130b09a1d911673333a2ed017fd7c73d334fd701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 29/68] fix: do not race on the configuration during a reload

---
 common/config.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/common/config.go b/common/config.go
index a06eefc..18f401c 100644
--- a/common/config.go
+++ b/common/config.go
@@ -1,5 +1,7 @@
 package common
 
+import "sync"
+
 type Proxy struct {
 	Group    string            `json:"group"`
 	Version  string            `json:"version"`
@@ -19,21 +21,28 @@ type Config struct {
 	Token          string `json:"token"`
 }
 
-var cfg *Config
+var (
+	cfg     *Config
+	cfgLock sync.RWMutex
+)
 
 func InitConfig(c *Config) {
 	if c.DefaultCluster == "" {
 		c.DefaultCluster = "default"
 	}
+	cfgLock.Lock()
+	defer cfgLock.Unlock()
 	cfg = c
 }
 
 func GetConfig() Config {
+	cfgLock.RLock()
+	defer cfgLock.RUnlock()
 	return *cfg
 }
 
 func GetGVRKind(g, v, r string) string {
-	for _, p := range cfg.Proxies {
+	for _, p := range GetConfig().Proxies {
 		if p.Group == g && p.Version == v && p.Resource == r {
 			return p.ListKind
 		}
-- 
2.43.0


From 628ace0e2148c39b10841ae2f20f69348a8440e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:06 +0000
Subject: [PATCH 30/68] fix: the resource gauge follows a reset of the cache

---
 store/memory/memory.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/store/memory/memory.go b/store/memory/memory.go
index 2d6bd41..7daaeac 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -140,6 +140,10 @@ func (m *memoryStore) Clean(gvr store.GroupVersionResource, cluster string) erro
 	for _, c := range m.resourceMap.Get(gvr).Get(clusterName(cluster)).Values() {
 		c.Clean()
 	}
+	m.resourceMap.Get(gvr).Get(clusterName(cluster)).ForEach(func(ns namespaceName, c *syncResourceStore[string, store.Object]) {
+		prommonitor.Resources.WithLabelValues(cluster, gvr.Group, gvr.Version, gvr.Resource, string(ns)).
+			Set(float64(c.Len()))
+	})
 	return nil
 }
 
-- 
2.43.0


From 78e8fb3ac26343948d76332f3432983f031a7474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 31/68] fix: index expressions must not see the state of other
 ones

---
 store/memory/memory.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/store/memory/memory.go b/store/memory/memory.go
index 7daaeac..dcc321e 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -392,10 +392,11 @@ func (m *memoryStore) buildResourceWithIndex(gvr store.GroupVersionResource, clu
 		Obj:   obj,
 	}
 	mobj := utils.Obj2JSONMap(obj)
-	jp := jsonpath.New("parser")
-	jp.AllowMissingKeys(true)
-	gotmpl := template.New("parser").Funcs(funMap)
 	for k, v := range m.indexConf[gvr] {
+		// parsers keep state, so every expression needs its own
+		jp := jsonpath.New("parser")
+		jp.AllowMissingKeys(true)
+		gotmpl := template.New("parser").Funcs(funMap)
 		w := bytes.NewBuffer([]byte{})
 		var exec interface {
 			Execute(wr io.Writer, data interface{}) error
-- 
2.43.0


From 022db50d762c4171ecc8ed5808f86c4fec136776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:24 +0000
Subject: [PATCH 32/68] fix: find the selector when --clusters precedes it

---
 cmd/ckube-plugin/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/ckube-plugin/main.go b/cmd/ckube-plugin/main.go
index afe35a8..1168862 100644
--- a/cmd/ckube-plugin/main.go
+++ b/cmd/ckube-plugin/main.go
@@ -44,7 +44,8 @@ func main() {
 		}
 		if a == "-l" || a == "--selector" {
 			if i+1 < len(os.Args) {
-				selectorPos = i + 1
+				// the next argument is appended to args, which lacks the --clusters option
+				selectorPos = len(args)
 			}
 		}
 	}
-- 
2.43.0


From cd1a0424a682a0459484ea98806b19398530b9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:26 +0000
Subject: [PATCH 33/68] fix: resource names must not change the subcommand

---
 cmd/ckube-plugin/main.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cmd/ckube-plugin/main.go b/cmd/ckube-plugin/main.go
index 1168862..6529d1f 100644
--- a/cmd/ckube-plugin/main.go
+++ b/cmd/ckube-plugin/main.go
@@ -25,10 +25,12 @@ func main() {
 	selectorPos := 0
 	for i := 1; i < len(os.Args); i++ {
 		a := os.Args[i]
-		switch a {
-		case "get":
+		switch {
+		case typ != notSupport:
+			// names may equal a subcommand, the first one counts
+		case a == "get":
 			typ = get
-		case "create":
+		case a == "create":
 			typ = create
 			// case "delete":
 			//	typ = del
-- 
2.43.0


From a722b9865c4024923369716e2e1a1603e82746d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:29 +0000
Subject: [PATCH 34/68] fix: keep selectors that are joined to their option

---
 cmd/ckube-plugin/main.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cmd/ckube-plugin/main.go b/cmd/ckube-plugin/main.go
index 6529d1f..0b12c78 100644
--- a/cmd/ckube-plugin/main.go
+++ b/cmd/ckube-plugin/main.go
@@ -35,6 +35,19 @@ func main() {
 			// case "delete":
 			//	typ = del
 		}
+		if strings.HasPrefix(a, "--clusters=") {
+			clusters = strings.TrimPrefix(a, "--clusters=")
+			continue
+		}
+		for _, prefix := range []string{"--selector=", "-l=", "-l"} {
+			if strings.HasPrefix(a, prefix) && a != prefix {
+				// the same as two arguments
+				args = append(args, "-l")
+				a = strings.TrimPrefix(a, prefix)
+				selectorPos = len(args)
+				break
+			}
+		}
 		if a == "--clusters" {
 			if i+1 < len(os.Args) {
 				clusters = os.Args[i+1]
-- 
2.43.0


From 68b4cd3f5252fb29b8e10f9e1cb1cafcb431e825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:31 +0000
Subject: [PATCH 35/68] fix: do not run a command for the wrong clusters after
 an error

---
 cmd/ckube-plugin/main.go | 11 +++++++++--
 cmd/ckubecli/main.go     |  5 ++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/cmd/ckube-plugin/main.go b/cmd/ckube-plugin/main.go
index 0b12c78..e180f9f 100644
--- a/cmd/ckube-plugin/main.go
+++ b/cmd/ckube-plugin/main.go
@@ -75,14 +75,21 @@ func main() {
 		switch typ {
 		case get:
 			p := page.Paginate{}
-			_ = p.Clusters(cs)
+			if err := p.Clusters(cs); err != nil {
+				log.Errorf("clusters %v error: %v", clusters, err)
+				os.Exit(2)
+			}
 			selector := ""
 			if selectorPos != 0 {
 				selector = args[selectorPos]
 			}
-			o, _ := page.QueryListOptions(metav1.ListOptions{
+			o, err := page.QueryListOptions(metav1.ListOptions{
 				LabelSelector: selector,
 			}, p)
+			if err != nil {
+				log.Errorf("selector %v error: %v", selector, err)
+				os.Exit(2)
+			}
 			if selectorPos == 0 {
 				args = append(args, "-l", o.LabelSelector)
 			} else {
diff --git a/cmd/ckubecli/main.go b/cmd/ckubecli/main.go
index 721b787..f8ef991 100644
--- a/cmd/ckubecli/main.go
+++ b/cmd/ckubecli/main.go
@@ -31,7 +31,10 @@ func main() {
 	}
 	if clusters != "" {
 		ccs := strings.Split(clusters, ",")
-		_ = p.Clusters(ccs)
+		if err := p.Clusters(ccs); err != nil {
+			fmt.Fprintf(os.Stderr, "clusters error: %v", err)
+			os.Exit(1)
+		}
 	}
 	o, err := page.QueryListOptions(v1.ListOptions{}, p)
 	if err != nil {
-- 
2.43.0


From 4373209b02769e2c853ea55c86c78d099fb6219c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 36/68] fix: exit with the status of kubectl

---
 cmd/ckube-plugin/main.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/ckube-plugin/main.go b/cmd/ckube-plugin/main.go
index e180f9f..cfdde3e 100644
--- a/cmd/ckube-plugin/main.go
+++ b/cmd/ckube-plugin/main.go
@@ -111,5 +111,11 @@ func main() {
 	c.Stdin = os.Stdin
 	c.Stdout = os.Stdout
 	c.Stderr = os.Stderr
-	_ = c.Run()
+	if err := c.Run(); err != nil {
+		if exit, ok := err.(*exec.ExitError); ok && exit.ExitCode() > 0 {
+			os.Exit(exit.ExitCode())
+		}
+		log.Errorf("run kubectl error: %v", err)
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From 8798179b6c19005280c3fe52d7254c08a5b7259c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 37/68] fix: fake watches must not lose events nor outlive
 their client

---
 pkg/client/fake/fake_ckube.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/client/fake/fake_ckube.go b/pkg/client/fake/fake_ckube.go
index 21daeb3..8840048 100644
--- a/pkg/client/fake/fake_ckube.go
+++ b/pkg/client/fake/fake_ckube.go
@@ -316,9 +316,10 @@ func (s *fakeCkubeServer) watch(writer http.ResponseWriter, r *http.Request) {
 	}
 
 	s.watchChanLock.Lock()
-	s.watchChanMap[r.RemoteAddr] = make(chan Event)
+	// buffered, so that no event is lost while an earlier one is written
+	s.watchChanMap[r.RemoteAddr] = make(chan Event, 1024)
 	s.watchChanLock.Unlock()
-	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Minute)
+	ctx, cancel := context.WithTimeout(r.Context(), 10*time.Minute)
 	defer cancel()
 	writer.Header().Set("Content-Type", "application/json")
 	writer.Header().Set("Transfer-Encoding", "chunked")
-- 
2.43.0


From 5e230637f7d9dde7e9143d5df72dc6e670e697cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:10 +0000
Subject: [PATCH 38/68] fix: the index annotation carries the built-in name and
 namespace

---
 store/memory/memory.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/store/memory/memory.go b/store/memory/memory.go
index dcc321e..b10af1c 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -450,6 +450,9 @@ func (m *memoryStore) buildResourceWithIndex(gvr store.GroupVersionResource, clu
 			anno[constants.DSMClusterAnno] = cluster
 			oo.SetAnnotations(anno)
 		}
+		// BUILD-IN Index: namespace and name, also for the annotation
+		s.Index["namespace"] = oo.GetNamespace()
+		s.Index["name"] = oo.GetName()
 		anno := oo.GetAnnotations()
 		index, _ := json.Marshal(s.Index)
 		anno[constants.IndexAnno] = string(index) // todo constants
-- 
2.43.0


From 123013fbb750a1505fead3fbd7037e1afe242949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:02 +0000
Subject: [PATCH 39/68] fix: a query that can not be decoded is not an empty
 query

---
 api/proxy.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/api/proxy.go b/api/proxy.go
index ad69c2c..f29b5ba 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -168,7 +168,9 @@ func parsePaginateAndLabelsAndClean(r *http.Request) (*page.Paginate, *v1.LabelS
 			if err != nil {
 				return nil, labels, cluster, err
 			}
-			_ = json.Unmarshal(rr, &paginate)
+			if err := json.Unmarshal(rr, &paginate); err != nil {
+				return nil, labels, cluster, err
+			}
 			delete(labels.MatchLabels, constants.PaginateKey)
 		}
 		if len(labels.MatchLabels) != 0 || len(labels.MatchExpressions) != 0 {
-- 
2.43.0


From a628775d8fb716cd6e31bd415514076adb58c3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 40/68] fix: forward requests with other methods instead of
 panicking

---
 api/proxy.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index f29b5ba..860ed21 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -507,8 +507,7 @@ func getRequest(r *ReqContext, cluster string, timeout time.Duration) *rest.Requ
 	case http.MethodPatch:
 		req = c.Patch(types.PatchType(r.Request.Header.Get("Content-Type")))
 	default:
-		log.Errorf("unexpected method: %s", r.Request.Method)
-		return nil
+		req = c.Verb(r.Request.Method)
 	}
 	// for k, v := range r.Request.Header {
 	//	if len(v) > 0 {
-- 
2.43.0


From 122b351713333b6eb24c9e6f86cbd47bfc6a027d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:48 +0000
Subject: [PATCH 41/68] fix: relay the reason and message of the api server's
 errors

---
 api/proxy.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/api/proxy.go b/api/proxy.go
index 860ed21..5950bdd 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -541,7 +541,13 @@ func proxyPass(r *ReqContext, cluster string) interface{} {
 	res, err := getRequest(r, cluster, timeout).RequestURI(u).DoRaw(ctx)
 	if err != nil {
 		if es, ok := err.(*errors.StatusError); ok {
-			return errorProxy(r.Writer, es.ErrStatus)
+			status := v1.Status{}
+			if json.Unmarshal(res, &status) != nil || status.Status != v1.StatusFailure {
+				return errorProxy(r.Writer, es.ErrStatus)
+			}
+			// the api server explained the error
+			status.Code = es.ErrStatus.Code
+			return errorProxy(r.Writer, status)
 		}
 		return err
 	}
-- 
2.43.0


From 2b013e7cb47d97bed204548aa24e7a54618463e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:54 +0000
Subject: [PATCH 42/68] fix: forward the caller's timeout parameter

---
 api/proxy.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/api/proxy.go b/api/proxy.go
index 5950bdd..bba1814 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -538,7 +538,8 @@ func proxyPass(r *ReqContext, cluster string) interface{} {
 	timeout := time.Minute
 	ctx, cancel := context.WithTimeout(context.Background(), timeout)
 	defer cancel()
-	res, err := getRequest(r, cluster, timeout).RequestURI(u).DoRaw(ctx)
+	// Timeout(0): ctx limits the request, keep the caller's own timeout parameter
+	res, err := getRequest(r, cluster, timeout).Timeout(0).RequestURI(u).DoRaw(ctx)
 	if err != nil {
 		if es, ok := err.(*errors.StatusError); ok {
 			status := v1.Status{}
-- 
2.43.0


From e36044cadf7c81e428659bd585af00fc6bac692a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:25 +0000
Subject: [PATCH 43/68] fix: integers must not be indexed in exponent notation

---
 utils/utils.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/utils/utils.go b/utils/utils.go
index 071c8e1..8b9c791 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -1,10 +1,15 @@
 package utils
 
-import "encoding/json"
+import (
+	"encoding/json"
+
+	utiljson "k8s.io/apimachinery/pkg/util/json"
+)
 
 func Obj2JSONMap(obj interface{}) map[string]interface{} {
 	m := make(map[string]interface{})
 	bs, _ := json.Marshal(obj)
-	_ = json.Unmarshal(bs, &m)
+	// integers must stay integers, as float64 they would be printed like 1e+06
+	_ = utiljson.Unmarshal(bs, &m)
 	return m
 }
-- 
2.43.0


From 5f56f607be3783e7bc963c86b4c2fb35ad288d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:37 +0000
Subject: [PATCH 44/68] fix: default and quote must work for values that are no
 strings

---
 store/memory/memory.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/store/memory/memory.go b/store/memory/memory.go
index b10af1c..2890a32 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -376,10 +376,13 @@ var funMap = map[string]interface{}{
 		if pre == nil {
 			return def
 		}
-		return fmt.Sprintf("%s", pre)
+		return fmt.Sprint(pre)
 	},
 	"quote": func(pre interface{}) string {
-		return fmt.Sprintf("%q", pre)
+		if pre == nil {
+			return `""`
+		}
+		return fmt.Sprintf("%q", fmt.Sprint(pre))
 	},
 	"join": func(sep string, ins ...string) string {
 		return strings.Join(ins, sep)
-- 
2.43.0


From d6e6538dd4a3b8b262c0d90a482629d770352ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:13 +0000
Subject: [PATCH 45/68] fix: refuse long queries with missing or misplaced
 parts

---
 kube/label.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kube/label.go b/kube/label.go
index 1875743..4987766 100644
--- a/kube/label.go
+++ b/kube/label.go
@@ -6,6 +6,7 @@ import (
 	k8labels "k8s.io/apimachinery/pkg/labels"
 	"k8s.io/apimachinery/pkg/selection"
 	"sort"
+	"strconv"
 	"strings"
 )
 
@@ -42,6 +43,10 @@ func MergeValues(values []string) (string, error) {
 		if len(parts) != 2 {
 			return "", fmt.Errorf("value format error")
 		}
+		if pos, err := strconv.Atoi(parts[0]); err != nil || pos != b.Len() {
+			// without all of its parts the value means something else
+			return "", fmt.Errorf("value format error: misplaced part %s", parts[0])
+		}
 		b.WriteString(parts[1])
 	}
 	return b.String(), nil
-- 
2.43.0


From 6bf35d6c09a9060f2aa0de40bce36342c97fcea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:53 +0000
Subject: [PATCH 46/68] fix: no panic on services of a deployment when pods or
 services are not cached

---
 api/extend/deploy2service.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/api/extend/deploy2service.go b/api/extend/deploy2service.go
index 637a63f..f3ae8a7 100644
--- a/api/extend/deploy2service.go
+++ b/api/extend/deploy2service.go
@@ -1,6 +1,7 @@
 package extend
 
 import (
+	"fmt"
 	"strings"
 
 	"github.com/gorilla/mux"
@@ -31,6 +32,17 @@ func Deploy2Service(r *api.ReqContext) interface{} {
 		Version:  "v1",
 		Resource: "services",
 	}
+	for _, gvr := range []store.GroupVersionResource{podGvr, svcGvr} {
+		if !r.Store.IsStoreGVR(gvr) {
+			return v12.Status{
+				TypeMeta: v12.TypeMeta{Kind: "Status", APIVersion: "v1"},
+				Status:   v12.StatusFailure,
+				Message:  fmt.Sprintf("%s are not cached", gvr.Resource),
+				Reason:   v12.StatusReasonNotFound,
+				Code:     404,
+			}
+		}
+	}
 	if cluster == "" {
 		cluster = common.GetConfig().DefaultCluster
 	}
-- 
2.43.0


From 4f7a4909793c62e7c72b0f67f766e04a2103e92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:50 +0000
Subject: [PATCH 47/68] fix: a slow connection is not a quiet one

---
 watcher/watcher.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index 81c9394..3c4ed76 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -158,13 +158,13 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 			url = fmt.Sprintf("/apis/%s/%s/%s?watch=true", r.Group, r.Version, r.Resource)
 		}
 		first := true
-		// a connection that stays quiet for that long has no objects to report
-		quiet := time.After(time.Minute)
 		ww, err := rt.Get().RequestURI(url).Timeout(time.Hour).Watch(ctx)
 		if err != nil {
 			log.Errorf("cluster(%s): create watcher for %s error: %v", cluster, url, err)
 			time.Sleep(time.Second * 15)
 		} else {
+			// a connection that stays quiet for that long has no objects to report
+			quiet := time.After(time.Minute)
 		resultChan:
 			for {
 				select {
-- 
2.43.0


From adc7e8743959613f5b73cbc6b3575c75a6d197e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:50 +0000
Subject: [PATCH 48/68] fix: no updates after the watcher was stopped

---
 watcher/watcher.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index 3c4ed76..535398e 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -169,6 +169,14 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 			for {
 				select {
 				case rr, open := <-ww.ResultChan():
+					select {
+					case <-w.stop:
+						// events that were waiting meanwhile must not change anything
+						ww.Stop()
+						cancel()
+						return
+					default:
+					}
 					if first && open && rr.Type != watch.Error {
 						// only clean resource at the first time
 						// to avoid the resources gone after server break.
-- 
2.43.0


From 4b21e7f2dbe0ce0f414d890e8ed40ecc2255d5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:18 +0000
Subject: [PATCH 49/68] fix: serve the kind and apiVersion of built-in objects

---
 watcher/watcher.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index 535398e..ef418dc 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -135,6 +135,14 @@ func (w *watcher) registerKind(r store.GroupVersionResource) {
 	w.lock.Unlock()
 }
 
+// setKind restores the apiVersion and kind of built-in objects, which the decoder drops.
+func (w *watcher) setKind(obj runtime.Object) {
+	gvks, _, err := w.scheme.ObjectKinds(obj)
+	if err == nil && len(gvks) == 1 {
+		obj.GetObjectKind().SetGroupVersionKind(gvks[0])
+	}
+}
+
 func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 	config := w.clusterConfigs[cluster]
 
@@ -184,6 +192,9 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 						first = false
 					}
 					if open {
+						if rr.Type != watch.Error {
+							w.setKind(rr.Object)
+						}
 						switch rr.Type {
 						case watch.Added:
 							_ = w.store.OnResourceAdded(r, cluster, rr.Object)
-- 
2.43.0


From ab0ac0c68359622d43df5109dec57e2b58f29717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:57 +0000
Subject: [PATCH 50/68] fix: follow configuration files that were moved or
 absent for a while

---
 utils/fs_watcher.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/utils/fs_watcher.go b/utils/fs_watcher.go
index 4c16ab3..6c96153 100644
--- a/utils/fs_watcher.go
+++ b/utils/fs_watcher.go
@@ -65,8 +65,24 @@ func (w *fixedFileWatcher) Start() error {
 		}
 	}
 	go func() {
-		for { // nolint:gosimple
+		// files that are gone, until they come back
+		missing := map[string]bool{}
+		var retry <-chan time.Time
+		for {
 			select {
+			case <-retry:
+				retry = nil
+				for name := range missing {
+					if err := ww.Add(name); err != nil {
+						retry = time.After(time.Second * 2)
+						continue
+					}
+					delete(missing, name)
+					w.events <- Event{
+						Name: name,
+						Type: EventTypeChanged,
+					}
+				}
 			case e, open := <-w.fswatcher.Events:
 				if !open {
 					log.Info("fs watcher closed")
@@ -76,7 +92,7 @@ func (w *fixedFileWatcher) Start() error {
 				switch e.Op {
 				case fsnotify.Write:
 					// do reload
-				case fsnotify.Remove:
+				case fsnotify.Remove, fsnotify.Rename:
 					// 在 Kubernetes 里面，当挂载 ConfigMap 的时候，如果发生文件重新，Kubernetes 会首先删除这个文件
 					// 再重新创建，所以我们应该在删除之后重新建立 watcher。
 					_ = w.fswatcher.Remove(e.Name)
@@ -89,6 +105,8 @@ func (w *fixedFileWatcher) Start() error {
 							Name: e.Name,
 							Type: EventTypeError,
 						}
+						missing[e.Name] = true
+						retry = time.After(time.Second * 2)
 						continue
 					}
 					// do reload
-- 
2.43.0


From 661a00aa55083c406b7f9ec5e4aa80f3cf8f3638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:25 +0000
Subject: [PATCH 51/68] fix: the fake server answers with the object, not with
 its Go fields

---
 pkg/client/fake/fake_ckube.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/client/fake/fake_ckube.go b/pkg/client/fake/fake_ckube.go
index 8840048..ab53e15 100644
--- a/pkg/client/fake/fake_ckube.go
+++ b/pkg/client/fake/fake_ckube.go
@@ -476,5 +476,5 @@ func (s *fakeCkubeServer) proxy(writer http.ResponseWriter, r *http.Request) {
 		}
 	}
 	s.watchChanLock.RUnlock()
-	jsonResp(writer, 200, obj)
+	jsonResp(writer, 200, &obj)
 }
-- 
2.43.0


From c876f367db44b5bb47ba5055c51bd08ad1350bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:22 +0000
Subject: [PATCH 52/68] fix: events of the fake server name the namespace of
 the object

---
 pkg/client/fake/fake_ckube.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/client/fake/fake_ckube.go b/pkg/client/fake/fake_ckube.go
index ab53e15..d8dfdf5 100644
--- a/pkg/client/fake/fake_ckube.go
+++ b/pkg/client/fake/fake_ckube.go
@@ -406,6 +406,11 @@ func (s *fakeCkubeServer) proxy(writer http.ResponseWriter, r *http.Request) {
 		return
 	}
 	_ = json.Unmarshal(bs, &obj)
+	if obj.Namespace != namespace && r.Method != "DELETE" {
+		// clients need not repeat the namespace of the path, watchers need it
+		obj.Namespace = namespace
+		bs, _ = json.Marshal(&obj)
+	}
 	obj.Namespace = namespace
 	if resourceName == "" {
 		resourceName = obj.Name
-- 
2.43.0


From be9ac19521139523d624d62836ddd6ff7483726a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:23 +0000
Subject: [PATCH 53/68] fix: a panic when a watch is opened by its path on the
 fake server

---
 server/server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/server.go b/server/server.go
index f616d45..ba466fd 100644
--- a/server/server.go
+++ b/server/server.go
@@ -61,6 +61,10 @@ func (w *statusWriter) Write(b []byte) (int, error) {
 	return n, err
 }
 
+func (w *statusWriter) Flush() {
+	w.ResponseWriter.(http.Flusher).Flush()
+}
+
 func loggingMiddleware(next http.Handler) http.Handler {
 	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
 		st := time.Now()
-- 
2.43.0


From 62f1a978bf69ad342e41f19e395a0eae990e0b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:35 +0000
Subject: [PATCH 54/68] fix: the plugin must leave arguments behind -- alone

---
 cmd/ckube-plugin/main.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmd/ckube-plugin/main.go b/cmd/ckube-plugin/main.go
index cfdde3e..7875c1f 100644
--- a/cmd/ckube-plugin/main.go
+++ b/cmd/ckube-plugin/main.go
@@ -21,10 +21,16 @@ const (
 func main() {
 	clusters := ""
 	args := []string{}
+	rest := []string{}
 	typ := notSupport
 	selectorPos := 0
 	for i := 1; i < len(os.Args); i++ {
 		a := os.Args[i]
+		if a == "--" {
+			// no options behind it, e.g. the command of a job
+			rest = os.Args[i:]
+			break
+		}
 		switch {
 		case typ != notSupport:
 			// names may equal a subcommand, the first one counts
@@ -106,6 +112,7 @@ func main() {
 			args = append(args, "--field-manager", o.FieldManager)
 		}
 	}
+	args = append(args, rest...)
 	c := exec.Command("kubectl", args...)
 	// fmt.Printf("args %v\n", args)
 	c.Stdin = os.Stdin
-- 
2.43.0


From f347f8f9a54b07f0c7e7b6606b97808dc69c8906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:03 +0000
Subject: [PATCH 55/68] fix: the plugin must find a selector behind options
 without values

---
 cmd/ckube-plugin/main.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/ckube-plugin/main.go b/cmd/ckube-plugin/main.go
index 7875c1f..93db8ee 100644
--- a/cmd/ckube-plugin/main.go
+++ b/cmd/ckube-plugin/main.go
@@ -45,6 +45,12 @@ func main() {
 			clusters = strings.TrimPrefix(a, "--clusters=")
 			continue
 		}
+		if n := len(a) - len(strings.TrimLeft(strings.TrimPrefix(a, "-"), "AwR")); n > 1 &&
+			strings.HasPrefix(a, "-") && strings.HasPrefix(a[n:], "l") {
+			// options without values in front of it, e.g. -Al app=x
+			args = append(args, a[:n])
+			a = "-" + a[n:]
+		}
 		for _, prefix := range []string{"--selector=", "-l=", "-l"} {
 			if strings.HasPrefix(a, prefix) && a != prefix {
 				// the same as two arguments
-- 
2.43.0


From 1183d3c5bd2e38fda48e5ddcfd6dbbbb41f2dbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 56/68] fix: messages of the plugin do not belong into
 kubectl's output

---
 cmd/ckube-plugin/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/ckube-plugin/main.go b/cmd/ckube-plugin/main.go
index 93db8ee..4141c61 100644
--- a/cmd/ckube-plugin/main.go
+++ b/cmd/ckube-plugin/main.go
@@ -5,6 +5,7 @@ import (
 	"os/exec"
 	"strings"
 
+	"github.com/sirupsen/logrus"
 	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
 
 	"github.com/DaoCloud/ckube/log"
@@ -19,6 +20,8 @@ const (
 )
 
 func main() {
+	// the standard output belongs to kubectl
+	logrus.SetOutput(os.Stderr)
 	clusters := ""
 	args := []string{}
 	rest := []string{}
-- 
2.43.0


From 798ab53f35d4fff3650a85e558cc216a3dd5df99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:52 +0000
Subject: [PATCH 57/68] fix: forwarded requests must not wait for the rate
 limit of the client library

All users share one client per cluster; with its default of 5 requests per second
requests queue up and fail as soon as some hundred of them are forwarded.
---
 cmd/cacheproxy/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/cacheproxy/main.go b/cmd/cacheproxy/main.go
index 13d4ff1..908c8b9 100644
--- a/cmd/cacheproxy/main.go
+++ b/cmd/cacheproxy/main.go
@@ -58,7 +58,10 @@ func GetK8sConfigConfigWithFile(kubeconfig, context string) *rest.Config {
 }
 
 func GetKubernetesClientWithFile(kubeconfig, context string) (kubernetes.Interface, error) {
-	clientset, err := kubernetes.NewForConfig(GetK8sConfigConfigWithFile(kubeconfig, context))
+	config := GetK8sConfigConfigWithFile(kubeconfig, context)
+	// requests of all users are forwarded with this client, limiting them is up to the api server
+	config.QPS = -1
+	clientset, err := kubernetes.NewForConfig(config)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 1259aa61011b7928cc06fdebd2557fe871928a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:38 +0000
Subject: [PATCH 58/68] fix: follow configuration changes when there is no
 kubeconfig, keep the default one while it is replaced

---
 cmd/cacheproxy/main.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/cmd/cacheproxy/main.go b/cmd/cacheproxy/main.go
index 908c8b9..5833412 100644
--- a/cmd/cacheproxy/main.go
+++ b/cmd/cacheproxy/main.go
@@ -178,18 +178,22 @@ func main() {
 	if debug {
 		log.SetDebug()
 	}
+	files := []string{configFile}
+	if kubeConfig == "" {
+		// without it the service account is used, and there is no file to watch
+		if _, err := os.Stat(defaultConfig); err == nil {
+			kubeConfig = defaultConfig
+		}
+	}
+	if kubeConfig != "" {
+		files = append(files, kubeConfig)
+	}
 	clis, w, s, err := loadFromConfig(kubeConfig, configFile)
 	if err != nil {
 		log.Errorf("load from config file error: %v", err)
 		os.Exit(1)
 	}
 	ser := server.NewMuxServer(listen, clis, s)
-	files := []string{configFile}
-	if kubeConfig == "" {
-		files = append(files, defaultConfig)
-	} else {
-		files = append(files, kubeConfig)
-	}
 	fixedWatcher, err := utils.NewFixedFileWatcher(files)
 	if err != nil {
 		log.Errorf("create watcher error: %v", err)
-- 
2.43.0


From 2307efcca62f73032fe96f2c524b18c41642f896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:18 +0000
Subject: [PATCH 59/68] fix: only deprecated watch paths are watches, not every
 path with something called watch

---
 api/proxy.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index bba1814..1add26e 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -437,10 +437,11 @@ func isWatchRequest(r *http.Request) bool {
 			return true
 		}
 	}
-	if strings.Contains(r.URL.Path, "/watch/") {
-		return true
-	}
-	return false
+	// deprecated watches: /api/{version}/watch/... and /apis/{group}/{version}/watch/...,
+	// other paths may contain something that is called watch
+	parts := strings.Split(r.URL.Path, "/")
+	return len(parts) > 4 && parts[1] == "api" && parts[3] == "watch" ||
+		len(parts) > 5 && parts[1] == "apis" && parts[4] == "watch"
 }
 
 func proxyPassWatch(r *ReqContext, cluster string) interface{} {
-- 
2.43.0


From cd216f9d4015c6250c9628a78294b4f1226e5c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:19 +0000
Subject: [PATCH 60/68] fix: requests with selectors that can not be parsed
 must not carry the cluster marker

---
 api/proxy.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/api/proxy.go b/api/proxy.go
index 1add26e..8e1911f 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -116,6 +116,8 @@ func parsePaginateAndLabelsAndClean(r *http.Request) (*page.Paginate, *v1.LabelS
 			}
 		}
 	}
+	// also when the selector can not be parsed, the marker must not be forwarded
+	r.URL.RawQuery = query.Encode()
 	if r.Method == http.MethodDelete {
 		body := r.Body
 		opts, err := io.ReadAll(body)
-- 
2.43.0


From 3bebafcb4edef2c34a2af7b744902285e6c10be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:10 +0000
Subject: [PATCH 61/68] fix: the fake server's discovery lists each type under
 its own group and version

---
 pkg/client/fake/fake_ckube.go | 39 ++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/pkg/client/fake/fake_ckube.go b/pkg/client/fake/fake_ckube.go
index d8dfdf5..442eb80 100644
--- a/pkg/client/fake/fake_ckube.go
+++ b/pkg/client/fake/fake_ckube.go
@@ -184,6 +184,9 @@ func resources(writer http.ResponseWriter, r *http.Request) {
 		res.GroupVersion = fmt.Sprintf("%s/%s", group, version)
 	}
 	for _, p := range common.GetConfig().Proxies {
+		if p.Group != group || p.Version != version {
+			continue
+		}
 		res.APIResources = append(res.APIResources, metav1.APIResource{
 			Name:         p.Resource,
 			SingularName: "",
@@ -203,6 +206,15 @@ func resources(writer http.ResponseWriter, r *http.Request) {
 			},
 		})
 	}
+	if len(res.APIResources) == 0 && res.GroupVersion != "v1" {
+		errorProxy(writer, metav1.Status{
+			Status:  metav1.StatusFailure,
+			Message: fmt.Sprintf("%s not found", res.GroupVersion),
+			Reason:  metav1.StatusReasonNotFound,
+			Code:    404,
+		})
+		return
+	}
 	jsonResp(writer, 200, res)
 }
 
@@ -217,22 +229,33 @@ func apis(writer http.ResponseWriter, r *http.Request) {
 	a := metav1.APIGroupList{}
 
 	for _, p := range common.GetConfig().Proxies {
+		if p.Group == "" {
+			// the core group is listed by api
+			continue
+		}
+		v := metav1.GroupVersionForDiscovery{
+			GroupVersion: fmt.Sprintf("%s/%s", p.Group, p.Version),
+			Version:      p.Version,
+		}
 		find := false
-		for _, g := range a.Groups {
-			if g.Name == p.Group {
-				g.Versions = append(g.Versions, metav1.GroupVersionForDiscovery{
-					GroupVersion: fmt.Sprintf("%s/%s", p.Group, p.Version),
-					Version:      p.Version,
-				})
+		for i := range a.Groups {
+			if g := &a.Groups[i]; g.Name == p.Group {
 				find = true
+				known := false
+				for _, gv := range g.Versions {
+					known = known || gv == v
+				}
+				if !known {
+					g.Versions = append(g.Versions, v)
+				}
 				break
 			}
 		}
 		if !find {
 			a.Groups = append(a.Groups, metav1.APIGroup{
 				Name:                       p.Group,
-				Versions:                   nil,
-				PreferredVersion:           metav1.GroupVersionForDiscovery{},
+				Versions:                   []metav1.GroupVersionForDiscovery{v},
+				PreferredVersion:           v,
 				ServerAddressByClientCIDRs: nil,
 			})
 		}
-- 
2.43.0


From b8910c5d5aec5b1aa7e8ccb1aa0e0653d207daf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:45 +0000
Subject: [PATCH 62/68] fix: configuration changes during the start must not be
 missed

---
 cmd/cacheproxy/main.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/cmd/cacheproxy/main.go b/cmd/cacheproxy/main.go
index 5833412..b564ae3 100644
--- a/cmd/cacheproxy/main.go
+++ b/cmd/cacheproxy/main.go
@@ -188,19 +188,22 @@ func main() {
 	if kubeConfig != "" {
 		files = append(files, kubeConfig)
 	}
+	// changes count from the first load on
+	fixedWatcher, watcherErr := utils.NewFixedFileWatcher(files)
+	if watcherErr == nil {
+		if err := fixedWatcher.Start(); err != nil {
+			panic(fmt.Errorf("watcher start error: %v", err))
+		}
+	}
 	clis, w, s, err := loadFromConfig(kubeConfig, configFile)
 	if err != nil {
 		log.Errorf("load from config file error: %v", err)
 		os.Exit(1)
 	}
 	ser := server.NewMuxServer(listen, clis, s)
-	fixedWatcher, err := utils.NewFixedFileWatcher(files)
-	if err != nil {
-		log.Errorf("create watcher error: %v", err)
+	if watcherErr != nil {
+		log.Errorf("create watcher error: %v", watcherErr)
 	} else {
-		if err := fixedWatcher.Start(); err != nil {
-			panic(fmt.Errorf("watcher start error: %v", err))
-		}
 		defer fixedWatcher.Close()
 		go func() {
 			for e := range fixedWatcher.Events() {
-- 
2.43.0


From cb025ba81d25f4005f6ce0c9af7ada2bf02dded7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:51 +0000
Subject: [PATCH 63/68] fix: the fake server must refuse watches whose selector
 can not be understood

---
 pkg/client/fake/fake_ckube.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pkg/client/fake/fake_ckube.go b/pkg/client/fake/fake_ckube.go
index 442eb80..33b366e 100644
--- a/pkg/client/fake/fake_ckube.go
+++ b/pkg/client/fake/fake_ckube.go
@@ -295,8 +295,14 @@ func (s *fakeCkubeServer) watch(writer http.ResponseWriter, r *http.Request) {
 	}
 	paginate := page.Paginate{}
 	if labelSelectorStr != "" {
-		var err error
-		labels, _ := kube.ParseToLabelSelector(labelSelectorStr)
+		labels, err := kube.ParseToLabelSelector(labelSelectorStr)
+		if err != nil {
+			errorProxy(writer, metav1.Status{
+				Message: err.Error(),
+				Code:    400,
+			})
+			return
+		}
 		paginateStr := ""
 		if ps, ok := labels.MatchLabels[constants.PaginateKey]; ok {
 			paginateStr = ps
@@ -333,7 +339,13 @@ func (s *fakeCkubeServer) watch(writer http.ResponseWriter, r *http.Request) {
 				})
 				return
 			}
-			_ = json.Unmarshal(rr, &paginate)
+			if err := json.Unmarshal(rr, &paginate); err != nil {
+				errorProxy(writer, metav1.Status{
+					Message: err.Error(),
+					Code:    400,
+				})
+				return
+			}
 			delete(labels.MatchLabels, constants.PaginateKey)
 		}
 	}
-- 
2.43.0


From 635a9aff52737cb20de47f7dc160e27640fdda80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:56 +0000
Subject: [PATCH 64/68] fix: serialise the writes of the fake server, so that
 concurrent ones do not interleave

---
 pkg/client/fake/fake_ckube.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/client/fake/fake_ckube.go b/pkg/client/fake/fake_ckube.go
index 33b366e..c5a2926 100644
--- a/pkg/client/fake/fake_ckube.go
+++ b/pkg/client/fake/fake_ckube.go
@@ -34,6 +34,7 @@ type fakeCkubeServer struct {
 	eventChan     chan Event
 	watchChanMap  map[string]chan Event
 	watchChanLock sync.RWMutex
+	writeLock     sync.Mutex // a write is checked, stored and reported before the next one
 }
 
 func NewFakeCKubeServer(listenAddr string, config string) (CkubeServer, error) {
@@ -103,6 +104,8 @@ func (s *fakeCkubeServer) Clean() {
 		}] = proxy.Index
 	}
 	m := memory.NewMemoryStore(indexConf)
+	s.writeLock.Lock()
+	defer s.writeLock.Unlock()
 	s.ser.ResetStore(m, nil)
 	s.store = m
 }
@@ -450,6 +453,8 @@ func (s *fakeCkubeServer) proxy(writer http.ResponseWriter, r *http.Request) {
 	if resourceName == "" {
 		resourceName = obj.Name
 	}
+	s.writeLock.Lock()
+	defer s.writeLock.Unlock()
 	action := EventActionError
 	switch r.Method {
 	case "POST":
-- 
2.43.0


From a2460d1e0dcaf1b7a2f1d71743344a282d1987c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:59 +0000
Subject: [PATCH 65/68] fix: no change by a stopped watcher arrives in its
 store or the gauge

---
 watcher/watcher.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index ef418dc..48a5798 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -29,6 +29,7 @@ type watcher struct {
 	stop           chan struct{}
 	lock           sync.Mutex
 	scheme         *runtime.Scheme
+	changing       sync.RWMutex // held while the store is changed
 	Watcher
 }
 
@@ -42,10 +43,24 @@ func NewWatcher(clusterConfigs map[string]rest.Config, resources []store.GroupVe
 }
 
 func (w *watcher) Stop() error {
+	// changes that are on their way must not arrive later
+	w.changing.Lock()
+	defer w.changing.Unlock()
 	close(w.stop)
 	return nil
 }
 
+// change changes the store, unless the watcher is stopped.
+func (w *watcher) change(f func()) {
+	w.changing.RLock()
+	defer w.changing.RUnlock()
+	select {
+	case <-w.stop:
+	default:
+		f()
+	}
+}
+
 type ObjType struct {
 	v1.TypeMeta   `json:",inline"`
 	v1.ObjectMeta `json:"metadata,omitempty" protobuf:"bytes,1,opt,name=metadata"`
@@ -188,7 +203,7 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 					if first && open && rr.Type != watch.Error {
 						// only clean resource at the first time
 						// to avoid the resources gone after server break.
-						_ = w.store.Clean(r, cluster)
+						w.change(func() { _ = w.store.Clean(r, cluster) })
 						first = false
 					}
 					if open {
@@ -197,11 +212,11 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 						}
 						switch rr.Type {
 						case watch.Added:
-							_ = w.store.OnResourceAdded(r, cluster, rr.Object)
+							w.change(func() { _ = w.store.OnResourceAdded(r, cluster, rr.Object) })
 						case watch.Modified:
-							_ = w.store.OnResourceModified(r, cluster, rr.Object)
+							w.change(func() { _ = w.store.OnResourceModified(r, cluster, rr.Object) })
 						case watch.Deleted:
-							_ = w.store.OnResourceDeleted(r, cluster, rr.Object)
+							w.change(func() { _ = w.store.OnResourceDeleted(r, cluster, rr.Object) })
 						case watch.Error:
 							quiet = nil
 							log.Warnf("cluster(%s): watch stream(%v) error: %v", cluster, r, rr.Object)
@@ -214,7 +229,7 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 					}
 				case <-quiet:
 					if first {
-						_ = w.store.Clean(r, cluster)
+						w.change(func() { _ = w.store.Clean(r, cluster) })
 						first = false
 					}
 				case <-w.stop:
-- 
2.43.0


From 5e09fc66948780202e7796410f66ea045286b0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:59 +0000
Subject: [PATCH 66/68] fix: keep the gauge of what the new watchers report on
 a reload

---
 cmd/cacheproxy/main.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/cacheproxy/main.go b/cmd/cacheproxy/main.go
index b564ae3..5a67c35 100644
--- a/cmd/cacheproxy/main.go
+++ b/cmd/cacheproxy/main.go
@@ -160,7 +160,6 @@ func loadFromConfig(kubeConfig, configFile string) (map[string]kubernetes.Interf
 	}
 	m := memory.NewMemoryStore(indexConf)
 	w := watcher.NewWatcher(clusterConfigs, storeGVRConfig, m)
-	_ = w.Start()
 	return clusterClients, w, m, nil
 }
 
@@ -200,6 +199,7 @@ func main() {
 		log.Errorf("load from config file error: %v", err)
 		os.Exit(1)
 	}
+	_ = w.Start()
 	ser := server.NewMuxServer(listen, clis, s)
 	if watcherErr != nil {
 		log.Errorf("create watcher error: %v", watcherErr)
@@ -221,8 +221,10 @@ func main() {
 					log.Errorf("watcher: reload config error: %v", err)
 					continue
 				}
-				prommonitor.Resources.Reset()
 				_ = w.Stop()
+				// only now, what the new watchers report must not be forgotten
+				prommonitor.Resources.Reset()
+				_ = rw.Start()
 				w = rw
 				ser.ResetStore(rs, clis) // reset store
 				prommonitor.ConfigReload.WithLabelValues("success").Inc()
-- 
2.43.0


From dc54eb9cdce2b9c2d44ab3c55f6e8275416de408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:59 +0000
Subject: [PATCH 67/68] fix: a kubeconfig rewritten while it is loaded does not
 end the server

---
 cmd/cacheproxy/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/cacheproxy/main.go b/cmd/cacheproxy/main.go
index 5a67c35..8356d4c 100644
--- a/cmd/cacheproxy/main.go
+++ b/cmd/cacheproxy/main.go
@@ -59,6 +59,10 @@ func GetK8sConfigConfigWithFile(kubeconfig, context string) *rest.Config {
 
 func GetKubernetesClientWithFile(kubeconfig, context string) (kubernetes.Interface, error) {
 	config := GetK8sConfigConfigWithFile(kubeconfig, context)
+	if config == nil {
+		// the file may have been rewritten since it was read
+		return nil, fmt.Errorf("init k8s config error")
+	}
 	// requests of all users are forwarded with this client, limiting them is up to the api server
 	config.QPS = -1
 	clientset, err := kubernetes.NewForConfig(config)
-- 
2.43.0


From 5d6f8a38c2b6bdbfe2408406d86da5840bd2a291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:20 +0000
Subject: [PATCH 68/68] fix: find the replica set of a pod among all of its
 owners

---
 api/extend/deploy2service.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/api/extend/deploy2service.go b/api/extend/deploy2service.go
index f3ae8a7..29e7903 100644
--- a/api/extend/deploy2service.go
+++ b/api/extend/deploy2service.go
@@ -94,10 +94,13 @@ func Deploy2Service(r *api.ReqContext) interface{} {
 }
 
 func getDeploymentName(pod v12.Object) string {
-	if len(pod.GetOwnerReferences()) == 0 || pod.GetOwnerReferences()[0].Kind != "ReplicaSet" {
-		return ""
-	} else {
-		parts := strings.Split(pod.GetOwnerReferences()[0].Name, "-")
+	// owners have no order
+	for _, owner := range pod.GetOwnerReferences() {
+		if owner.Kind != "ReplicaSet" {
+			continue
+		}
+		parts := strings.Split(owner.Name, "-")
 		return strings.Join(parts[:len(parts)-1], "-")
 	}
+	return ""
 }
-- 
2.43.0

