package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strconv"
	"strings"
	"text/template"

	k8sruntime "k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
	clientscheme "k8s.io/client-go/kubernetes/scheme"
)

// refScheme is the harness's own copy of the client-go types.
var refScheme = func() *k8sruntime.Scheme {
	s := k8sruntime.NewScheme()
	_ = clientscheme.AddToScheme(s)
	return s
}()

const (
	annoCluster = "ckube.doacloud.io/cluster"
	annoIndex   = "ckube.daocloud.io/indexes"
)

// ------------------------------------------------------------ object content

// bodyKind names the kind of content: types which share their plural differ.
func (r *ResType) bodyKind() string {
	for i := range resTypes {
		if t := &resTypes[i]; t.Resource == r.Resource {
			if t.GVR == r.GVR {
				return r.Resource
			}
			break
		}
	}
	return r.GVR.String()
}

// genBody makes the content of an object from a seed.
func genBody(rt *ResType, ns, name string, v uint64) map[string]interface{} {
	r := newRng(hash64(rt.bodyKind(), ns, name, v))
	meta := map[string]interface{}{}
	labels := map[string]interface{}{}
	labels["app"] = r.Pick("a", "b", "c")
	if r.P(70) {
		labels["num"] = strconv.Itoa(r.PickInt(1, 2, 3, 7, 10, 21, 100))
	} else {
		labels["num"] = "5"
	}
	if r.P(50) {
		labels["tier"] = r.Pick("web", "db", "cache.v1")
	}
	if r.P(30) {
		meta["annotations"] = map[string]interface{}{"note": r.Pick("hello", "a=b", "x;y", "x;z y", "x; q;y", ";", "a;;b", "say \"hi\"", "!bang", "ünï~?", "really?~", "name", "c1")}
	}
	if r.P(8) { // annotations ckube uses itself, set by somebody else
		a, _ := meta["annotations"].(map[string]interface{})
		if a == nil {
			a = map[string]interface{}{}
			meta["annotations"] = a
		}
		a[annoCluster] = r.Pick("c0", "c1", "alpha", "", "no-such-cluster")
		if r.P(40) {
			a[annoIndex] = userIndexes[r.N(len(userIndexes))]
		}
	}
	labels["rev"] = strconv.FormatUint(v%1000, 10)
	switch x := hash64("track", ns, name, strconv.FormatUint(v, 10)) % 100; {
	case x < 8:
		labels["track"] = "canary"
	case x < 16:
		labels["track"] = "stable"
	}
	body := map[string]interface{}{"metadata": meta}
	switch rt.bodyKind() {
	case "pods":
		dep := r.Pick("web", "web-canary", "api")
		if i := strings.LastIndex(name, "-"); i > 0 {
			dep = name[:i]
		}
		app := depApp(dep)
		labels["app"] = app
		labels["pod-template-hash"] = fmt.Sprintf("h%d", hash64(dep)%97)
		kind := "ReplicaSet"
		if r.P(15) {
			kind = r.Pick("Job", "StatefulSet", "DaemonSet", "Deployment", "replicaset")
			labels["app"] = depApp(r.Pick("web", "web-canary", "api"))
		}
		meta["ownerReferences"] = []interface{}{map[string]interface{}{"apiVersion": "apps/v1", "kind": kind, "name": dep + "-" + fmt.Sprintf("h%d", hash64(dep)%97), "uid": "u-" + dep, "controller": true}}
		if x := hash64(name+strconv.FormatUint(v, 10)) % 10; x < 2 {
			// owners besides the controller
			other := map[string]interface{}{"apiVersion": "sim.ckube.io/v1", "kind": "Widget", "name": "api-h1", "uid": "u-other"}
			l := meta["ownerReferences"].([]interface{})
			if x == 0 {
				l = append([]interface{}{other}, l...)
			} else {
				l = append(l, other)
			}
			meta["ownerReferences"] = l
		}
		if x := hash64("solo", name, strconv.FormatUint(v, 10)) % 100; x < 4 {
			// a ReplicaSet nobody made a deployment for
			meta["ownerReferences"] = []interface{}{map[string]interface{}{"apiVersion": "apps/v1", "kind": "ReplicaSet", "name": []string{"solo", "web"}[x%2], "uid": "u-solo", "controller": true}}
		}
		if r.P(10) {
			delete(meta, "ownerReferences")
			if r.P(50) { // labelled as if the deployment had made it
				labels["app"] = r.Pick(dep, app)
				labels["tier"] = r.Pick("web", "db")
			}
		}
		body["spec"] = map[string]interface{}{"nodeName": r.Pick("n1", "n2", ""), "containers": []interface{}{map[string]interface{}{"name": "m", "image": "img:" + r.Pick("1", "2"), "resources": map[string]interface{}{"limits": map[string]interface{}{"cpu": "500m", "memory": "1Gi"}}}}}
		body["status"] = map[string]interface{}{"phase": r.Pick("Running", "Running", "Pending", "Failed", "Succeeded", "Unknown"), "podIP": fmt.Sprintf("10.0.0.%d", r.N(250))}
	case "services":
		sel := map[string]interface{}{"app": depApp(r.Pick("web", "web-canary", "api"))}
		if i := strings.LastIndex(name, "-"); i > 0 && r.P(40) {
			sel["app"] = depApp(name[:i])
		}
		if r.P(15) {
			sel["tier"] = r.Pick("web", "db")
			if r.P(40) {
				delete(sel, "app")
			}
		}
		spec := map[string]interface{}{"ports": []interface{}{map[string]interface{}{"port": 80 + r.N(10), "targetPort": 8080, "protocol": "TCP"}}, "selector": sel, "type": "ClusterIP"}
		if r.P(10) {
			delete(spec, "selector")
		} else if r.P(6) {
			spec["selector"] = map[string]interface{}{}
		} else if r.P(6) {
			sel[r.Pick("tier", "absent")] = ""
		}
		switch x := hash64("svc", name, strconv.FormatUint(v, 10)) % 100; {
		case x < 10: // headless
			spec["clusterIP"] = "None"
			if x < 5 {
				delete(spec, "ports")
			}
		case x < 20:
			spec["type"] = []string{"NodePort", "LoadBalancer"}[x%2]
		case x < 25:
			spec["publishNotReadyAddresses"] = true
		}
		if x := hash64("svctrack", name, strconv.FormatUint(v, 10)) % 100; x < 14 {
			sel["track"] = []string{"canary", "stable"}[x%2]
		}
		body["spec"] = spec
	case "deployments":
		body["spec"] = map[string]interface{}{"replicas": r.N(12), "selector": map[string]interface{}{"matchLabels": map[string]interface{}{"app": name}}, "template": map[string]interface{}{"metadata": map[string]interface{}{}, "spec": map[string]interface{}{"containers": []interface{}{}}}}
	case "configmaps":
		body["data"] = map[string]interface{}{"k": fmt.Sprint(r.N(100)), "big": strings.Repeat("x", r.PickInt(0, 10, 3000))}
	case "namespaces":
		body["spec"] = map[string]interface{}{"finalizers": []interface{}{"kubernetes"}}
		body["status"] = map[string]interface{}{"phase": r.Pick("Active", "Terminating")}
	default:
		sp := map[string]interface{}{"host": r.Pick("h1", "h2"), "weight": r.PickInt(0, 7, 42, 99, 1234567, 20000000), "ratio": json.Number("0.5"), "nested": map[string]interface{}{"list": []interface{}{1, "two", nil, true, map[string]interface{}{"k": "v"}}}}
		if r.P(40) {
			sp["big"] = json.Number(r.Pick("9007199254740993", "1234567890123456789", "4611686018427387905"))
		}
		if x := hash64("large", name, strconv.FormatUint(v, 10)); x%1000 < 15 {
			sp["notes"] = strings.Repeat("large ", 1000+int(x>>20)%11000)
			sp["big"] = json.Number("9007199254740993")
		}
		odd := hash64("odd", name, strconv.FormatUint(v, 10))
		switch odd % 25 {
		case 0, 1:
			sp["weight"] = -1 - int(odd>>20)%50
		case 2:
			sp["opt"] = nil
			body["extra"] = nil
		case 3:
			sp["big"] = json.Number("9007199254740993")
			sp["mass"] = json.Number("5.9e+24")
		}
		if odd%25 != 4 { // some have a status only, some nothing at all
			body["spec"] = sp
		}
		if r.P(30) {
			body["status"] = map[string]interface{}{"ready": r.P(50), "generation": r.N(5)}
		}
	}
	if r.P(8) {
		meta["deletionTimestamp"] = "2021-05-06T07:08:09Z"
		if hash64("grace", name, strconv.FormatUint(v, 10))%2 == 0 {
			meta["finalizers"] = []interface{}{"sim/hold"}
		} else { // terminating pods
			meta["deletionGracePeriodSeconds"] = 30
		}
	}
	if r.P(90) || rt.Resource == "pods" {
		meta["labels"] = labels
	} else {
		meta["labels"] = map[string]interface{}{"num": "5"}
	}
	// what real objects carry besides
	if x := hash64("extra", name, strconv.FormatUint(v, 10)); x%100 < 20 {
		bit := func(n uint) bool { return x>>(8+n)&1 == 1 }
		if bit(0) {
			meta["managedFields"] = []interface{}{map[string]interface{}{"manager": "kubectl", "operation": "Update", "apiVersion": rt.apiVersion(), "time": "2021-05-06T07:08:09Z", "fieldsType": "FieldsV1", "fieldsV1": map[string]interface{}{"f:metadata": map[string]interface{}{"f:labels": map[string]interface{}{".": map[string]interface{}{}, "f:app": map[string]interface{}{}}}}}}
		}
		if bit(1) {
			a, _ := meta["annotations"].(map[string]interface{})
			if a == nil {
				a = map[string]interface{}{}
				meta["annotations"] = a
			}
			a["kubectl.kubernetes.io/last-applied-configuration"] = fmt.Sprintf("{\"apiVersion\":%q,\"metadata\":{\"annotations\":{},\"name\":%q}}\n", rt.apiVersion(), name)
		}
		if bit(2) {
			meta["generateName"] = "gen-"
			meta["generation"] = int64(1 + x%7)
		}
		if bit(3) {
			meta["selfLink"] = rt.path(ns, name)
			meta["clusterName"] = "c9"
		}
		if bit(5) && bit(6) {
			a, _ := meta["annotations"].(map[string]interface{})
			if a == nil {
				a = map[string]interface{}{}
				meta["annotations"] = a
			}
			for i := 0; i < 6+int(x>>20)%20; i++ {
				a[fmt.Sprintf("example.com/a%d", i)] = strings.Repeat("v", i)
			}
		}
		if bit(4) {
			meta["finalizers"] = []interface{}{"sim/other", "kubernetes.io/pvc-protection"}
		}
	}
	return body
}

func depApp(dep string) string { return "app-" + dep }

var userIndexes = []string{"{}", "not json", `{"name":"zzz","cluster":"c1"}`}

// fromCache reports whether annotations are the ones ckube adds to what it
// caches.
func fromCache(am map[string]interface{}) bool {
	s, _ := am[annoIndex].(string)
	return s != "" && !contains(userIndexes, s)
}

// typedRoundTrip is what a client that knows the type sees of an object.
func typedRoundTrip(rt *ResType, js string) map[string]interface{} {
	if rt.Typed {
		obj, err := refScheme.New(schema.GroupVersionKind{Group: rt.Group, Version: rt.Version, Kind: rt.Kind})
		if err != nil {
			harnessFail("no type for %v", rt)
		}
		if err := json.Unmarshal([]byte(js), obj); err != nil {
			harnessFail("cannot decode %s: %v", js, err)
		}
		bs, _ := json.Marshal(obj)
		return decodeObj(string(bs))
	}
	return decodeObj(js)
}

var expectCache = map[*Version]map[string]interface{}{}

// expected is the content ckube should serve for a version (without its own
// two annotations).
func expected(rt *ResType, v *Version) map[string]interface{} {
	if m, ok := expectCache[v]; ok {
		return m
	}
	js := v.JSON
	m := typedRoundTrip(rt, js)
	normMeta(m)
	expectCache[v] = m
	return m
}

func normMeta(m map[string]interface{}) {
	meta, _ := m["metadata"].(map[string]interface{})
	if meta == nil {
		return
	}
	if a, ok := meta["annotations"].(map[string]interface{}); ok {
		delete(a, annoCluster)
		delete(a, annoIndex)
		if len(a) == 0 {
			delete(meta, "annotations")
		}
	}
	if meta["creationTimestamp"] == nil {
		delete(meta, "creationTimestamp")
	}
}

// jsonDiff returns "" if equal, else the first difference.
func jsonDiff(path string, a, b interface{}) string {
	switch x := a.(type) {
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok {
			return fmt.Sprintf("%s: object expected, got %v", path, short(fmt.Sprint(b), 80))
		}
		for _, k := range sortedKeys(x) {
			yv, ok := y[k]
			if !ok {
				return fmt.Sprintf("%s.%s: missing (want %s)", path, k, short(fmt.Sprint(x[k]), 80))
			}
			if d := jsonDiff(path+"."+k, x[k], yv); d != "" {
				return d
			}
		}
		for _, k := range sortedKeys(y) {
			if _, ok := x[k]; !ok {
				return fmt.Sprintf("%s.%s: unexpected %s", path, k, short(fmt.Sprint(y[k]), 80))
			}
		}
		return ""
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return fmt.Sprintf("%s: array differs", path)
		}
		for i := range x {
			if d := jsonDiff(fmt.Sprintf("%s[%d]", path, i), x[i], y[i]); d != "" {
				return d
			}
		}
		return ""
	case json.Number:
		y, ok := b.(json.Number)
		if !ok {
			return fmt.Sprintf("%s: want number %s, got %v", path, x, b)
		}
		if x == y {
			return ""
		}
		p, ok1 := new(big.Rat).SetString(string(x))
		q, ok2 := new(big.Rat).SetString(string(y))
		if ok1 && ok2 && p.Cmp(q) == 0 {
			return ""
		}
		return fmt.Sprintf("%s: want %s, got %s", path, x, y)
	default:
		if a != b {
			return fmt.Sprintf("%s: want %v, got %v", path, short(fmt.Sprint(a), 80), short(fmt.Sprint(b), 80))
		}
		return ""
	}
}

// ------------------------------------------------------------ index reference

// idxDef is an index definition and its meaning.
type idxDef struct {
	key  string
	expr string
	ref  func(rt *ResType, m map[string]interface{}) string
}

func jget(m map[string]interface{}, path ...string) (interface{}, bool) {
	var cur interface{} = m
	for _, p := range path {
		mm, ok := cur.(map[string]interface{})
		if !ok {
			return nil, false
		}
		cur, ok = mm[p]
		if !ok {
			return nil, false
		}
	}
	return cur, true
}

func jstr(m map[string]interface{}, path ...string) string {
	v, ok := jget(m, path...)
	if !ok || v == nil {
		return ""
	}
	switch x := v.(type) {
	case string:
		return x
	case json.Number:
		return string(x)
	case bool:
		return fmt.Sprint(x)
	default:
		bs, _ := json.Marshal(x)
		return string(bs)
	}
}

func refPath(path ...string) func(*ResType, map[string]interface{}) string {
	return func(_ *ResType, m map[string]interface{}) string { return jstr(m, path...) }
}

// index variants: every resource of a configuration uses the same set.
var idxVariants = [][]idxDef{
	{
		{"namespace", "{.metadata.namespace}", refPath("metadata", "namespace")},
		{"name", "{.metadata.name}", refPath("metadata", "name")},
		{"labels", "{.metadata.labels}", refPath("metadata", "labels")},
		{"created_at", "{.metadata.creationTimestamp}", refPath("metadata", "creationTimestamp")},
		{"app", "{.metadata.labels.app}", refPath("metadata", "labels", "app")},
		{"num", "{.metadata.labels.num}", refPath("metadata", "labels", "num")},
	},
	{
		{"namespace", "{.metadata.namespace}", refPath("metadata", "namespace")},
		{"name", "{.metadata.name}", refPath("metadata", "name")},
		{"uid", "{.metadata.uid}", refPath("metadata", "uid")},
		{"app", "{.metadata.labels.app}", refPath("metadata", "labels", "app")},
		{"num", "{.metadata.labels.num}", refPath("metadata", "labels", "num")},
		{"phase", "{.status.phase}", refPath("status", "phase")},
		{"tpl", "{{ .metadata.name }}.{{ .metadata.uid }}", func(_ *ResType, m map[string]interface{}) string {
			return jstr(m, "metadata", "name") + "." + jstr(m, "metadata", "uid")
		}},
		{"fixed", "constant", func(*ResType, map[string]interface{}) string { return "constant" }},
		{"note", "{.metadata.annotations.note}", refPath("metadata", "annotations", "note")},
		{"big", "{.spec.big}", refPath("spec", "big")},
		{"rank", "{.metadata.annotations.rank}", refPath("metadata", "annotations", "rank")},
		{"weight", "{{ .spec.weight }}", func(_ *ResType, m map[string]interface{}) string {
			if s := jstr(m, "spec", "weight"); s != "" {
				return s
			}
			return "<no value>"
		}},
		{"broken", "{.metadata.name", func(*ResType, map[string]interface{}) string { return "" }},
		{"ports", "{range .spec.ports[*]}{.port};{end}", func(_ *ResType, m map[string]interface{}) string {
			x, _ := jget(m, "spec", "ports")
			l, _ := x.([]interface{})
			s := ""
			for _, e := range l {
				pm, _ := e.(map[string]interface{})
				s += fmt.Sprint(pm["port"]) + ";"
			}
			return s
		}},
	},
	{
		refTpl("namespace", `{{ default "" .metadata.namespace }}`),
		refTpl("name", "{{ .metadata.name }}"),
		refTpl("app", `{{ default "none" .metadata.labels.app }}`),
		{"num", "{.metadata.labels.num}", refPath("metadata", "labels", "num")},
		refTpl("qname", "{{ quote .metadata.name }}"),
		refTpl("path", `{{ join "/" "" .metadata.name .metadata.uid }}`),
		refTpl("each", "{{ range $k, $v := .metadata.labels }}{{ $k }}:{{ $v }},{{ end }}"),
		refTpl("half", "{{ .metadata.name }}-{{ index .metadata.none 0 }}"),
		refTpl("unread", "{{ .metadata.name"),
		refTpl("nothing", "{{/* nothing */}}"),
		refTpl("defines", `{{ define "x" }}<{{ .metadata.uid }}>{{ end }}`),
		refTpl("tier", `{{ define "x" }}[{{ .metadata.labels.tier }}]{{ end }}{{ template "x" . }}`),
	},
}

// refTpl is an index with a template, evaluated for itself alone.
func refTpl(key, expr string) idxDef {
	t, err := template.New(key).Funcs(template.FuncMap{
		"default": func(def string, pre interface{}) string {
			if pre == nil {
				return def
			}
			return fmt.Sprint(pre)
		},
		"quote": func(pre interface{}) string { return strconv.Quote(fmt.Sprint(pre)) },
		"join":  func(sep string, ins ...string) string { return strings.Join(ins, sep) },
	}).Parse(expr)
	return idxDef{key, expr, func(_ *ResType, m map[string]interface{}) string {
		if err != nil {
			return ""
		}
		var w strings.Builder
		_ = t.Execute(&w, m)
		return w.String()
	}}
}

// refIndex evaluates the reference index of a version.
func refIndex(cluster string, rt *ResType, idx int, v *Version) map[string]string {
	m := expected(rt, v)
	out := map[string]string{}
	for _, d := range idxVariants[idx] {
		out[d.key] = d.ref(rt, m)
	}
	out["cluster"] = cluster
	out["is_deleted"] = "false"
	if x, ok := jget(m, "metadata", "deletionTimestamp"); ok && x != nil {
		out["is_deleted"] = "true"
	}
	out["namespace"] = jstr(m, "metadata", "namespace")
	out["name"] = jstr(m, "metadata", "name")
	return out
}

// ------------------------------------------------------------ query reference

// refMatchPart evaluates one part of the search DSL (PAGINATE_SPEC.md).
func refMatchPart(ix map[string]string, part string) (bool, error) {
	part = strings.TrimSpace(part)
	if part == "" {
		return true, nil
	}
	if strings.HasPrefix(part, "__ckube_as__:") {
		return refSelector(ix, part[len("__ckube_as__:"):])
	}
	if i := strings.Index(part, "="); i > 0 {
		key, val := part[:i], part[i+1:]
		neg := strings.HasPrefix(val, "!")
		if neg {
			val = val[1:]
		}
		have, ok := ix[key]
		if !ok {
			return false, fmt.Errorf("unknown key %s", key)
		}
		return strings.Contains(strconv.Quote(have), val) != neg, nil
	}
	neg := strings.HasPrefix(part, "!")
	if neg {
		part = part[1:]
	}
	found := false
	for _, v := range ix {
		if strings.Contains(strconv.Quote(v), part) {
			found = true
		}
	}
	return found != neg, nil
}

// refAccepts judges a query as such: 0 well formed, 1 refused as soon as there
// is an object to evaluate it on, 2 refused if two objects have to be compared,
// 3 always refused.
func refAccepts(q *QSpec, idx int) int {
	if q.Page < 0 || q.Size < 0 {
		return 3
	}
	has := func(k string) bool {
		switch k {
		case "cluster", "is_deleted", "namespace", "name":
			return true
		}
		for _, d := range idxVariants[idx] {
			if d.key == k {
				return true
			}
		}
		return false
	}
	for _, part := range q.Parts {
		part = strings.TrimSpace(part)
		if strings.HasPrefix(part, advPrefix) {
			if badSelector[part[len(advPrefix):]] {
				return 1
			}
			continue
		}
		if i := strings.Index(part, "="); i > 0 && !has(part[:i]) {
			return 1
		}
	}
	out := 0
	for _, term := range strings.Split(q.Sort, ",") {
		f := strings.Fields(term)
		if len(f) == 0 {
			continue
		}
		if len(f) > 2 || len(f) == 2 && f[1] != "desc" && f[1] != "asc" {
			return 1
		}
		key := f[0]
		if i := strings.Index(key, "!"); i >= 0 {
			if t := key[i+1:]; t != "int" && t != "str" {
				return 1
			} else if t == "int" && (key[:i] != "num" || world != nil && world.p.Labels == "bare") {
				out = 2
			}
			key = key[:i]
		}
		if !has(key) {
			return 1
		}
	}
	return out
}

const advPrefix = "__ckube_as__:"

// badSelector are selectors outside the syntax.
var badSelector = map[string]bool{"app in (": true, "a b c": true, "==x": true, "app in ()x": true}

// refSelector evaluates a (small) label selector: k=v, k!=v, k in (..),
// k notin (..), k, !k joined by commas.
func refSelector(ix map[string]string, sel string) (bool, error) {
	for _, term := range splitTerms(sel) {
		term = strings.TrimSpace(term)
		if term == "" {
			continue
		}
		set := func(s string) []string {
			s = strings.TrimSpace(s)
			s = strings.TrimPrefix(s, "(")
			s = strings.TrimSuffix(s, ")")
			var out []string
			for _, x := range strings.Split(s, ",") {
				out = append(out, strings.TrimSpace(x))
			}
			return out
		}
		in := func(xs []string, v string) bool {
			for _, x := range xs {
				if x == v {
					return true
				}
			}
			return false
		}
		switch {
		case strings.Contains(term, " notin "):
			p := strings.SplitN(term, " notin ", 2)
			v, ok := ix[strings.TrimSpace(p[0])]
			if ok && in(set(p[1]), v) {
				return false, nil
			}
		case strings.Contains(term, " in "):
			p := strings.SplitN(term, " in ", 2)
			v, ok := ix[strings.TrimSpace(p[0])]
			if !ok || !in(set(p[1]), v) {
				return false, nil
			}
		case strings.Contains(term, "!="):
			p := strings.SplitN(term, "!=", 2)
			v, ok := ix[strings.TrimSpace(p[0])]
			if ok && v == strings.TrimSpace(p[1]) {
				return false, nil
			}
		case strings.Contains(term, "="):
			p := strings.SplitN(term, "=", 2)
			v, ok := ix[strings.TrimSpace(p[0])]
			if !ok || v != strings.TrimSpace(strings.TrimPrefix(p[1], "=")) {
				return false, nil
			}
		case strings.HasPrefix(term, "!"):
			if _, ok := ix[strings.TrimSpace(term[1:])]; ok {
				return false, nil
			}
		default:
			if _, ok := ix[term]; !ok {
				return false, nil
			}
		}
	}
	return true, nil
}

func splitTerms(s string) []string {
	var out []string
	depth, start := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ',':
			if depth == 0 {
				out = append(out, s[start:i])
				start = i + 1
			}
		}
	}
	return append(out, s[start:])
}

// refSortLess compares two indexes under a sort expression: -1, 0, 1.
func refSortCmp(a, b map[string]string, sort string) (int, error) {
	if strings.TrimSpace(sort) == "" {
		sort = "cluster, namespace, name"
	}
	for _, term := range strings.Split(sort, ",") {
		term = strings.TrimSpace(term)
		if term == "" {
			continue
		}
		desc := false
		f := strings.Fields(term)
		if len(f) == 2 {
			desc = f[1] == "desc"
		}
		key, isInt := f[0], false
		if i := strings.Index(key, "!"); i >= 0 {
			isInt = key[i+1:] == "int"
			key = key[:i]
		}
		c := 0
		if isInt {
			x, ok1 := new(big.Rat).SetString(a[key])
			y, ok2 := new(big.Rat).SetString(b[key])
			if !ok1 || !ok2 {
				return 0, fmt.Errorf("not a number")
			}
			c = x.Cmp(y)
		} else {
			c = strings.Compare(a[key], b[key])
		}
		if c != 0 {
			if desc {
				c = -c
			}
			return c, nil
		}
	}
	return 0, nil
}
