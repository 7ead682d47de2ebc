From 7099c2b20d6e23358ea3903f85eccc51d77a3552 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:33:23 +0000
Subject: [PATCH 01/52] fix: derive the watched kind with TrimSuffix instead of
 TrimRight

strings.TrimRight(kind, "List") removes any trailing run of the letters
L, i, s and t, so "WidgetList" became "Widge" and "GatewayClassList" became
"GatewayCla". The type registered for decoding then never matched the
objects the API server sent, every watch stream failed on its first event
and such resources were never cached.
---
 watcher/watcher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index 5a205ab..d4f820d 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -115,7 +115,7 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 	gvk := schema.GroupVersionKind{
 		Group:   r.Group,
 		Version: r.Version,
-		Kind:    strings.TrimRight(common.GetGVRKind(r.Group, r.Version, r.Resource), "List"),
+		Kind:    strings.TrimSuffix(common.GetGVRKind(r.Group, r.Version, r.Resource), "List"),
 	}
 	gv := schema.GroupVersion{
 		Group:   r.Group,
-- 
2.43.0


From 7a94df4f789711d887ca965bfe454366d679a2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:31 +0000
Subject: [PATCH 02/52] fix: keep large integers of custom resources intact

Custom resources were decoded into float64 values, so integers beyond 2^53
came out of the cache changed.
---
 watcher/watcher.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index d4f820d..16530a1 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -51,7 +51,10 @@ type ObjType struct {
 
 func (o *ObjType) UnmarshalJSON(bytes []byte) error {
 	m := map[string]interface{}{}
-	_ = json.Unmarshal(bytes, &m)
+	// keep numbers as they are, float64 can not hold every int64
+	d := json.NewDecoder(strings.NewReader(string(bytes)))
+	d.UseNumber()
+	_ = d.Decode(&m)
 	if v, ok := m["apiVersion"]; ok {
 		o.APIVersion = v.(string)
 	}
-- 
2.43.0


From 54007a430e5c3aafbfdff012f0e0aef268ad9931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:21 +0000
Subject: [PATCH 03/52] fix: serve cached built-in objects with kind and
 apiVersion

A GET of a single cached pod, service, ... returned an object without kind
and apiVersion, unlike the API server it stands in for, because the decoder
strips them.
---
 watcher/watcher.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index 16530a1..31aeea4 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -168,6 +168,11 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 						first = false
 					}
 					if open {
+						if rr.Type == watch.Added || rr.Type == watch.Modified {
+							// the decoder drops the type of built-in resources,
+							// but a client that gets the object relies on it.
+							rr.Object.GetObjectKind().SetGroupVersionKind(gvk)
+						}
 						switch rr.Type {
 						case watch.Added:
 							_ = w.store.OnResourceAdded(r, cluster, rr.Object)
-- 
2.43.0


From 85eaed4264d09fbaecefc192bdd73eeebc7fa8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:21 +0000
Subject: [PATCH 04/52] fix: give objects with equal sort keys a stable order

The comparison reported equal objects as less than each other and map
iteration fed them in random order, so two requests for consecutive pages
could repeat some objects and lose others.
---
 store/memory/memory.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/store/memory/memory.go b/store/memory/memory.go
index 84c3ab8..f279fee 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -266,7 +266,14 @@ func sortObjs(objs []store.Object, s string) ([]store.Object, error) {
 			}
 			return r
 		}
-		return true
+		// objects that compare equal need a fixed order,
+		// otherwise pages overlap and objects are lost between them.
+		for _, k := range []string{"cluster", "namespace", "name"} {
+			if objs[i].Index[k] != objs[j].Index[k] {
+				return objs[i].Index[k] < objs[j].Index[k]
+			}
+		}
+		return false
 	})
 	return objs, sortErr
 }
-- 
2.43.0


From d892a23ec2141bd3951e7ee8b34a66d7b08db8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:57 +0000
Subject: [PATCH 05/52] fix: drop cached objects when everything was deleted
 between two watch streams

The cache of a cluster was only cleaned on the first event of a new stream.
If all objects of a type disappeared while there was no stream, the new one
has nothing to send and the deleted objects were served forever. Treat a new
stream that stays silent for ten seconds as an empty collection.
---
 watcher/watcher.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index 31aeea4..a9d3186 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -157,9 +157,17 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 			log.Errorf("cluster(%s): create watcher for %s error: %v", cluster, url, err)
 			time.Sleep(time.Second * 15)
 		} else {
+			// a stream that stays silent has nothing to send: everything was
+			// deleted while there was no stream.
+			empty := time.After(time.Second * 10)
 		resultChan:
 			for {
 				select {
+				case <-empty:
+					if first {
+						_ = w.store.Clean(r, cluster)
+						first = false
+					}
 				case rr, open := <-ww.ResultChan():
 					if first {
 						// only clean resource at the first time
-- 
2.43.0


From c9ef52b4884befa6f71418c587138339abce3240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:57 +0000
Subject: [PATCH 06/52] fix: keep the cache when a new watch stream breaks
 before its first event

A reconnect that was cut at once, or answered with an error event, emptied
the cache of the cluster although nothing new was known about it.
---
 watcher/watcher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index a9d3186..d773976 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -169,7 +169,7 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 						first = false
 					}
 				case rr, open := <-ww.ResultChan():
-					if first {
+					if first && open && rr.Type != watch.Error {
 						// only clean resource at the first time
 						// to avoid the resources gone after server break.
 						_ = w.store.Clean(r, cluster)
-- 
2.43.0


From 253e103865eb0f9f78ae3e55e97ade0e6f598103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:38 +0000
Subject: [PATCH 07/52] fix: do not change the type registry while watch
 streams decode with it

Every watch goroutine registered its type in the process wide scheme while
others were already decoding events with that scheme. The registry is a plain
map, so the process died with "concurrent map read and map write" at startup
or on a reload. Each watcher now has its own scheme, complete before its
first stream starts.
---
 watcher/watcher.go | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index d773976..879ed75 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -5,12 +5,12 @@ import (
 	"encoding/json"
 	"fmt"
 	"strings"
-	"sync"
 	"time"
 
 	v1 "k8s.io/apimachinery/pkg/apis/meta/v1"
 	"k8s.io/apimachinery/pkg/runtime"
 	"k8s.io/apimachinery/pkg/runtime/schema"
+	"k8s.io/apimachinery/pkg/runtime/serializer"
 	"k8s.io/apimachinery/pkg/watch"
 	"k8s.io/client-go/kubernetes/scheme"
 	"k8s.io/client-go/rest"
@@ -25,7 +25,7 @@ type watcher struct {
 	resources      []store.GroupVersionResource
 	store          store.Store
 	stop           chan struct{}
-	lock           sync.Mutex
+	scheme         *runtime.Scheme
 	Watcher
 }
 
@@ -35,6 +35,7 @@ func NewWatcher(clusterConfigs map[string]rest.Config, resources []store.GroupVe
 		resources:      resources,
 		store:          store,
 		stop:           make(chan struct{}),
+		scheme:         runtime.NewScheme(),
 	}
 }
 
@@ -114,29 +115,38 @@ func (o ObjType) DeepCopyObject() runtime.Object {
 	}
 }
 
-func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
-	gvk := schema.GroupVersionKind{
+func kindOf(r store.GroupVersionResource) schema.GroupVersionKind {
+	return schema.GroupVersionKind{
 		Group:   r.Group,
 		Version: r.Version,
 		Kind:    strings.TrimSuffix(common.GetGVRKind(r.Group, r.Version, r.Resource), "List"),
 	}
-	gv := schema.GroupVersion{
-		Group:   r.Group,
-		Version: r.Version,
+}
+
+// registerTypes makes all watched types known to the scheme of this watcher.
+// A scheme must not change while streams decode with it.
+func (w *watcher) registerTypes() error {
+	v1.AddToGroupVersion(w.scheme, schema.GroupVersion{Version: "v1"})
+	if err := scheme.AddToScheme(w.scheme); err != nil {
+		return err
 	}
-	w.lock.Lock()
-	if _, ok := scheme.Scheme.KnownTypes(gv)[gvk.Kind]; !ok {
-		scheme.Scheme.AddKnownTypeWithName(gvk, &ObjType{})
+	for _, r := range w.resources {
+		gvk := kindOf(r)
+		if _, ok := w.scheme.KnownTypes(gvk.GroupVersion())[gvk.Kind]; !ok {
+			w.scheme.AddKnownTypeWithName(gvk, &ObjType{})
+		}
 	}
-	w.lock.Unlock()
+	return nil
+}
+
+func (w *watcher) watchResources(r store.GroupVersionResource, gvk schema.GroupVersionKind, cluster string) {
 	config := w.clusterConfigs[cluster]
 
 	config.GroupVersion = &schema.GroupVersion{
 		Group:   r.Group,
 		Version: r.Version,
 	}
-	scheme.Codecs.UniversalDeserializer()
-	config.NegotiatedSerializer = scheme.Codecs.WithoutConversion()
+	config.NegotiatedSerializer = serializer.NewCodecFactory(w.scheme).WithoutConversion()
 	rt, _ := rest.RESTClientFor(&config)
 	for {
 		select {
@@ -209,9 +219,13 @@ func (w *watcher) watchResources(r store.GroupVersionResource, cluster string) {
 }
 
 func (w *watcher) Start() error {
+	if err := w.registerTypes(); err != nil {
+		return err
+	}
 	for _, r := range w.resources {
+		gvk := kindOf(r)
 		for c := range w.clusterConfigs {
-			go w.watchResources(r, c)
+			go w.watchResources(r, gvk, c)
 		}
 	}
 	return nil
-- 
2.43.0


From 0c9c99f7145b6b55b7f1612253c3d210fb451bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 08/52] fix: release the upstream watch when the client goes
 away

---
 api/proxy.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/api/proxy.go b/api/proxy.go
index 2c7ce8b..48980e5 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -428,7 +428,8 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 	u := r.Request.URL.String()
 	log.Debugf("proxyPass url: %s", u)
 	timeout := 30 * time.Minute
-	ctx, cancel := context.WithTimeout(context.Background(), timeout)
+	// the upstream stream must not outlive the client
+	ctx, cancel := context.WithTimeout(r.Request.Context(), timeout)
 	defer cancel()
 	reader, err := getRequest(r, cluster, timeout).RequestURI(u).Stream(ctx)
 	if err != nil {
-- 
2.43.0


From 96fc1457ee84b27c366fed8d2d44fbe901f02384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 09/52] fix: do not drop the last byte of a proxied watch
 stream

---
 api/proxy.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index 48980e5..27ebd5e 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -444,13 +444,13 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 	buf := bytes.NewBuffer([]byte{})
 	for {
 		t := make([]byte, 1)
-		_, err := reader.Read(t)
+		n, err := reader.Read(t)
+		buf.Write(t[:n]) // the last byte may come together with the error
 		if err != nil {
 			_, _ = r.Writer.Write(buf.Bytes())
 			return nil
 		}
-		buf.Write(t)
-		if t[0] == '\n' {
+		if n > 0 && t[0] == '\n' {
 			_, _ = r.Writer.Write(buf.Bytes())
 			buf.Reset()
 		}
-- 
2.43.0


From 3a008a312e58ec9ce0ea6a1070de88a2ec6d2601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 10/52] fix: answer a proxied watch as soon as the upstream
 accepts it

---
 api/proxy.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/api/proxy.go b/api/proxy.go
index 27ebd5e..a01070b 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -441,6 +441,8 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 	r.Writer.Header().Set("Content-Type", "application/json")
 	r.Writer.Header().Set("Transfer-Encoding", "chunked")
 	r.Writer.Header().Set("Connection", "keep-alive")
+	// tell the client that its watch is established, the first event may be far away
+	r.Writer.WriteHeader(http.StatusOK)
 	buf := bytes.NewBuffer([]byte{})
 	for {
 		t := make([]byte, 1)
-- 
2.43.0


From 9471e85c140e3a5a744e424c38c3a154ba70f97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 11/52] fix: do not change the timeout of the client shared by
 all requests

A watch that started while another request was being proxied could get the
other request's timeout and be cut after one minute, and the API server got
a timeout parameter the client did not send. The contexts bound both kinds
of requests already.
---
 api/proxy.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index a01070b..b24ce05 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -431,7 +431,7 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 	// the upstream stream must not outlive the client
 	ctx, cancel := context.WithTimeout(r.Request.Context(), timeout)
 	defer cancel()
-	reader, err := getRequest(r, cluster, timeout).RequestURI(u).Stream(ctx)
+	reader, err := getRequest(r, cluster).RequestURI(u).Stream(ctx)
 	if err != nil {
 		if es, ok := err.(*errors.StatusError); ok {
 			return errorProxy(r.Writer, es.ErrStatus)
@@ -464,9 +464,8 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 	}
 }
 
-func getRequest(r *ReqContext, cluster string, timeout time.Duration) *rest.Request {
+func getRequest(r *ReqContext, cluster string) *rest.Request {
 	c := r.ClusterClients[cluster].Discovery().RESTClient().(*rest.RESTClient)
-	c.Client.Timeout = timeout
 	var req *rest.Request
 	switch r.Request.Method {
 	case http.MethodGet:
@@ -512,7 +511,7 @@ func proxyPass(r *ReqContext, cluster string) interface{} {
 	timeout := time.Minute
 	ctx, cancel := context.WithTimeout(context.Background(), timeout)
 	defer cancel()
-	res, err := getRequest(r, cluster, timeout).RequestURI(u).DoRaw(ctx)
+	res, err := getRequest(r, cluster).RequestURI(u).DoRaw(ctx)
 	if err != nil {
 		if es, ok := err.(*errors.StatusError); ok {
 			return errorProxy(r.Writer, es.ErrStatus)
-- 
2.43.0


From 008481a0178e42a74b9c946f16e59b4ad054b161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 12/52] fix: proxy HEAD and OPTIONS requests instead of
 panicking

---
 api/proxy.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index b24ce05..97d2d7f 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -479,8 +479,7 @@ func getRequest(r *ReqContext, cluster string) *rest.Request {
 	case http.MethodPatch:
 		req = c.Patch(types.PatchType(r.Request.Header.Get("Content-Type")))
 	default:
-		log.Errorf("unexpected method: %s", r.Request.Method)
-		return nil
+		return c.Verb(r.Request.Method)
 	}
 	// for k, v := range r.Request.Header {
 	//	if len(v) > 0 {
-- 
2.43.0


From 792df146d2a501284b7d4010e1cdc9ae3490cf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:15 +0000
Subject: [PATCH 13/52] fix: forward the options of a DELETE request without
 cluster marker

---
 api/proxy.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index 97d2d7f..449f375 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -124,9 +124,9 @@ func parsePaginateAndLabelsAndClean(r *http.Request) (*page.Paginate, *v1.LabelS
 			if len(options.DryRun) > 0 && strings.HasPrefix(options.DryRun[0], clusterPrefix) {
 				cluster = options.DryRun[0][len(clusterPrefix):]
 				options.DryRun = options.DryRun[1:]
-				bs, _ := json.Marshal(options)
-				r.Body = wrapReader(bytes.NewBuffer(bs))
+				opts, _ = json.Marshal(options)
 			}
+			r.Body = wrapReader(bytes.NewBuffer(opts))
 		} else {
 			log.Warnf("read body error: %v", err)
 		}
-- 
2.43.0


From 15ea7f88089d0cf39d5024a6024ba3e8293966c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 14/52] fix: send the whole body again when the api server asks
 for a retry

---
 api/proxy.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index 449f375..5126403 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -431,7 +431,11 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 	// the upstream stream must not outlive the client
 	ctx, cancel := context.WithTimeout(r.Request.Context(), timeout)
 	defer cancel()
-	reader, err := getRequest(r, cluster).RequestURI(u).Stream(ctx)
+	var reader io.ReadCloser
+	req, err := getRequest(r, cluster)
+	if err == nil {
+		reader, err = req.RequestURI(u).Stream(ctx)
+	}
 	if err != nil {
 		if es, ok := err.(*errors.StatusError); ok {
 			return errorProxy(r.Writer, es.ErrStatus)
@@ -464,12 +468,12 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 	}
 }
 
-func getRequest(r *ReqContext, cluster string) *rest.Request {
+func getRequest(r *ReqContext, cluster string) (*rest.Request, error) {
 	c := r.ClusterClients[cluster].Discovery().RESTClient().(*rest.RESTClient)
 	var req *rest.Request
 	switch r.Request.Method {
 	case http.MethodGet:
-		return c.Get()
+		return c.Get(), nil
 	case http.MethodPost:
 		req = c.Post()
 	case http.MethodDelete:
@@ -479,15 +483,20 @@ func getRequest(r *ReqContext, cluster string) *rest.Request {
 	case http.MethodPatch:
 		req = c.Patch(types.PatchType(r.Request.Header.Get("Content-Type")))
 	default:
-		return c.Verb(r.Request.Method)
+		return c.Verb(r.Request.Method), nil
 	}
 	// for k, v := range r.Request.Header {
 	//	if len(v) > 0 {
 	//		req = req.SetHeader(k, v[0])
 	//	}
 	// }
-	req = req.Body(r.Request.Body)
-	return req
+	// the client sends the request again if the api server asks for it, so it needs
+	// a body that can be read more than once
+	body, err := io.ReadAll(r.Request.Body)
+	if err != nil {
+		return nil, errors.NewBadRequest(fmt.Sprintf("read request body error: %v", err))
+	}
+	return req.Body(body), nil
 }
 
 func proxyPass(r *ReqContext, cluster string) interface{} {
@@ -510,7 +519,11 @@ func proxyPass(r *ReqContext, cluster string) interface{} {
 	timeout := time.Minute
 	ctx, cancel := context.WithTimeout(context.Background(), timeout)
 	defer cancel()
-	res, err := getRequest(r, cluster).RequestURI(u).DoRaw(ctx)
+	var res []byte
+	req, err := getRequest(r, cluster)
+	if err == nil {
+		res, err = req.RequestURI(u).DoRaw(ctx)
+	}
 	if err != nil {
 		if es, ok := err.(*errors.StatusError); ok {
 			return errorProxy(r.Writer, es.ErrStatus)
-- 
2.43.0


From 92baa32e3adcd182b1ffb70f8a0ea68ef0a6611d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 15/52] fix: forward the content type of request bodies

---
 api/proxy.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/api/proxy.go b/api/proxy.go
index 5126403..ce50257 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -496,7 +496,11 @@ func getRequest(r *ReqContext, cluster string) (*rest.Request, error) {
 	if err != nil {
 		return nil, errors.NewBadRequest(fmt.Sprintf("read request body error: %v", err))
 	}
-	return req.Body(body), nil
+	req = req.Body(body)
+	if ct := r.Request.Header.Get("Content-Type"); ct != "" {
+		req = req.SetHeader("Content-Type", ct)
+	}
+	return req, nil
 }
 
 func proxyPass(r *ReqContext, cluster string) interface{} {
-- 
2.43.0


From 9dd2cd7db3e7cb8df7259edbffd1082d1e6e8099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:30 +0000
Subject: [PATCH 16/52] fix: give every proxied request its own timeout instead
 of changing the shared client

---
 api/proxy.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index ce50257..2d6bd6f 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -432,7 +432,7 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 	ctx, cancel := context.WithTimeout(r.Request.Context(), timeout)
 	defer cancel()
 	var reader io.ReadCloser
-	req, err := getRequest(r, cluster)
+	req, err := getRequest(r, cluster, timeout)
 	if err == nil {
 		reader, err = req.RequestURI(u).Stream(ctx)
 	}
@@ -468,8 +468,13 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 	}
 }
 
-func getRequest(r *ReqContext, cluster string) (*rest.Request, error) {
-	c := r.ClusterClients[cluster].Discovery().RESTClient().(*rest.RESTClient)
+func getRequest(r *ReqContext, cluster string, timeout time.Duration) (*rest.Request, error) {
+	// the client is shared by all requests, but the timeout is this request's own
+	rc := *r.ClusterClients[cluster].Discovery().RESTClient().(*rest.RESTClient)
+	hc := *rc.Client
+	hc.Timeout = timeout
+	rc.Client = &hc
+	c := &rc
 	var req *rest.Request
 	switch r.Request.Method {
 	case http.MethodGet:
@@ -524,7 +529,7 @@ func proxyPass(r *ReqContext, cluster string) interface{} {
 	ctx, cancel := context.WithTimeout(context.Background(), timeout)
 	defer cancel()
 	var res []byte
-	req, err := getRequest(r, cluster)
+	req, err := getRequest(r, cluster, timeout)
 	if err == nil {
 		res, err = req.RequestURI(u).DoRaw(ctx)
 	}
-- 
2.43.0


From c3b8159e8b19ef05acdfc491be60a3a0fa1258ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:03 +0000
Subject: [PATCH 17/52] fix: keep every label selector part of a search when
 clusters or namespaces are set

---
 page/page.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/page/page.go b/page/page.go
index b1c7b5e..5148611 100644
--- a/page/page.go
+++ b/page/page.go
@@ -167,10 +167,14 @@ func (p *Paginate) SetSearchSelector(selector *v1.LabelSelector) error {
 		return fmt.Errorf("parse selector %v error", selector)
 	}
 	pps := []string{constants.AdvancedSearchPrefix + sstr}
+	replaced := false
 	for _, part := range parts {
-		if !strings.HasPrefix(part, constants.AdvancedSearchPrefix) {
-			pps = append(pps, part)
+		if !replaced && strings.HasPrefix(part, constants.AdvancedSearchPrefix) {
+			// this is the one SearchSelector returned, any other stays as it is
+			replaced = true
+			continue
 		}
+		pps = append(pps, part)
 	}
 	p.SetSearchWithParts(pps)
 	return nil
-- 
2.43.0


From 3f9c85780e8eb35d9a083e82eb8b683f9c4c8df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:10 +0000
Subject: [PATCH 18/52] fix: make every search fit into a label selector

---
 page/page.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/page/page.go b/page/page.go
index 5148611..040843b 100644
--- a/page/page.go
+++ b/page/page.go
@@ -7,6 +7,7 @@ import (
 	"reflect"
 	"strconv"
 	"strings"
+	"unicode/utf16"
 
 	"github.com/DaoCloud/ckube/common/constants"
 	"github.com/DaoCloud/ckube/kube"
@@ -297,12 +298,30 @@ func QueryDeleteOptions(options v1.DeleteOptions, cluster string) (v1.DeleteOpti
 	return options, nil
 }
 
+// escapeForLabel escapes the characters of a JSON document that could make its
+// base64 form contain '+' or '/', which are not allowed in label values.
+func escapeForLabel(js []byte) []byte {
+	b := strings.Builder{}
+	for _, r := range string(js) {
+		switch {
+		case r > 0xffff:
+			r1, r2 := utf16.EncodeRune(r)
+			fmt.Fprintf(&b, `\u%04x\u%04x`, r1, r2)
+		case r >= 0x7e || r == '?':
+			fmt.Fprintf(&b, `\u%04x`, r)
+		default:
+			b.WriteRune(r)
+		}
+	}
+	return []byte(b.String())
+}
+
 func QueryListOptions(options v1.ListOptions, page Paginate) (v1.ListOptions, error) {
 	bs, _ := json.Marshal(page)
 	if string(bs) == "{}" {
 		return options, nil
 	}
-	s := base64.StdEncoding.WithPadding(base64.NoPadding).EncodeToString(bs)
+	s := base64.StdEncoding.WithPadding(base64.NoPadding).EncodeToString(escapeForLabel(bs))
 	//if options.LabelSelector == "" {
 	//	options.LabelSelector = fmt.Sprintf("%s notin (%s)", common.PaginateKey, s)
 	//	return options
-- 
2.43.0


From e4d6b3075da8196221a122cfcf335905157dd397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:17 +0000
Subject: [PATCH 19/52] fix: reassemble searches longer than 10000 characters
 in order

---
 kube/label.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/kube/label.go b/kube/label.go
index e3df13e..f0e3608 100644
--- a/kube/label.go
+++ b/kube/label.go
@@ -6,6 +6,7 @@ import (
 	k8labels "k8s.io/apimachinery/pkg/labels"
 	"k8s.io/apimachinery/pkg/selection"
 	"sort"
+	"strconv"
 	"strings"
 )
 
@@ -31,14 +32,27 @@ func MergeValues(values []string) (string, error) {
 	if len(values) == 1 {
 		return values[0], nil
 	}
-	sort.Strings(values)
-	b := strings.Builder{}
+	type part struct {
+		offset int
+		value  string
+	}
+	ps := make([]part, 0, len(values))
 	for _, v := range values {
 		parts := strings.Split(v, ".")
 		if len(parts) != 2 {
 			return "", fmt.Errorf("value format error")
 		}
-		b.WriteString(parts[1])
+		offset, err := strconv.Atoi(parts[0])
+		if err != nil {
+			return "", fmt.Errorf("value format error")
+		}
+		ps = append(ps, part{offset: offset, value: parts[1]})
+	}
+	// offsets may have more than four digits
+	sort.SliceStable(ps, func(i, j int) bool { return ps[i].offset < ps[j].offset })
+	b := strings.Builder{}
+	for _, p := range ps {
+		b.WriteString(p.value)
 	}
 	return b.String(), nil
 }
-- 
2.43.0


From cde2e3cbb545e2091835ada7ea8878cd6b86f0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:56 +0000
Subject: [PATCH 20/52] fix: treat page 0 as unpaged everywhere, refuse
 negative pages and survive huge ones

---
 api/proxy.go           | 50 +++++++++++++++---------------------------
 page/page.go           | 38 +++++++++++++++++++++++++++++++-
 store/memory/memory.go | 20 +++++------------
 3 files changed, 60 insertions(+), 48 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index 2d6bd6f..d08cffc 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -227,6 +227,14 @@ func Proxy(r *ReqContext) interface{} {
 	}
 	log.Debugf("got paginate %v", paginate)
 
+	if err := paginate.Validate(); err != nil {
+		return errorProxy(r.Writer, v1.Status{
+			Status:  v1.StatusFailure,
+			Message: "query error",
+			Reason:  v1.StatusReason(err.Error()),
+			Code:    400,
+		})
+	}
 	items := make([]interface{}, 0)
 	var total int64
 	if labels != nil && (len(labels.MatchLabels) != 0 || len(labels.MatchExpressions) != 0) {
@@ -265,21 +273,7 @@ func Proxy(r *ReqContext) interface{} {
 
 		// manually slice items
 		var l = int64(len(items))
-		var start, end int64
-		if paginate.PageSize == 0 || paginate.Page == 0 {
-			// all resources
-			start = 0
-			end = l
-		} else {
-			start = (paginate.Page - 1) * paginate.PageSize
-			end = start + paginate.PageSize
-			if start >= l {
-				start = l
-			}
-			if end >= l {
-				end = l
-			}
-		}
+		start, end := paginate.Range(l)
 		items = items[start:end]
 		total = l
 	} else {
@@ -304,24 +298,16 @@ func Proxy(r *ReqContext) interface{} {
 	} else {
 		apiVersion = gvr.Group + "/" + gvr.Version
 	}
-	var remainCount int64
-	if paginate.Page == 0 && paginate.PageSize == 0 {
-		// all item returned
-		remainCount = 0
-	} else {
-		// page starts with 1,
-		remainCount = total - (paginate.PageSize * paginate.Page)
-		if remainCount < 0 && len(items) == 0 && paginate.Page != 1 {
-			return errorProxy(r.Writer, v1.Status{
-				Status:  v1.StatusFailure,
-				Message: "out of page",
-				Reason:  v1.StatusReason(fmt.Sprintf("request resources out of page: %d", remainCount)),
-				Code:    400,
-			})
-		} else if remainCount < 0 {
-			remainCount = 0
-		}
+	start, end := paginate.Range(total)
+	if !paginate.Unpaged() && start >= total && len(items) == 0 && paginate.Page != 1 {
+		return errorProxy(r.Writer, v1.Status{
+			Status:  v1.StatusFailure,
+			Message: "out of page",
+			Reason:  v1.StatusReason(fmt.Sprintf("request resources out of page: %d", paginate.Page)),
+			Code:    400,
+		})
 	}
+	remainCount := total - end
 	if strings.Contains(r.Request.Header.Get("accept"), "application/json;as=Table") {
 		return serverPrint(items)
 	}
diff --git a/page/page.go b/page/page.go
index 040843b..0f6125c 100644
--- a/page/page.go
+++ b/page/page.go
@@ -23,6 +23,39 @@ type Paginate struct {
 	Search   string `json:"search,omitempty" form:"search"`
 }
 
+// Unpaged tells if all items are wanted.
+func (p *Paginate) Unpaged() bool {
+	return p.Page == 0 || p.PageSize == 0
+}
+
+// Validate checks the page number and size.
+func (p *Paginate) Validate() error {
+	if p.Page < 0 || p.PageSize < 0 {
+		return fmt.Errorf("illegal page %d or page size %d", p.Page, p.PageSize)
+	}
+	return nil
+}
+
+// Range returns which of total items are on the page.
+func (p *Paginate) Range(total int64) (start, end int64) {
+	if p.Unpaged() {
+		return 0, total
+	}
+	if p.Page-1 > total/p.PageSize {
+		// past the end, also keeps the product below from overflowing
+		return total, total
+	}
+	start = (p.Page - 1) * p.PageSize
+	if start > total {
+		start = total
+	}
+	end = total
+	if p.PageSize < total-start {
+		end = start + p.PageSize
+	}
+	return start, end
+}
+
 func (p *Paginate) Match(m map[string]string) (bool, error) {
 	parts := p.SearchParts()
 	return Match(m, parts)
@@ -367,7 +400,10 @@ func MakeupResPaginate(l v1.ListInterface, page Paginate) Paginate {
 		var i int64 = 0
 		remain = &i
 	}
-	page.Total = *remain + (page.Page-1)*page.PageSize + int64(items)
+	page.Total = *remain + int64(items)
+	if !page.Unpaged() {
+		page.Total += (page.Page - 1) * page.PageSize
+	}
 	return page
 }
 
diff --git a/store/memory/memory.go b/store/memory/memory.go
index f279fee..f96b6d9 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -295,6 +295,10 @@ func (m *memoryStore) Get(gvr store.GroupVersionResource, cluster string, namesp
 
 func (m *memoryStore) Query(gvr store.GroupVersionResource, query store.Query) store.QueryResult {
 	res := store.QueryResult{}
+	if err := query.Validate(); err != nil {
+		res.Error = err
+		return res
+	}
 	resources := make([]store.Object, 0)
 	m.resourceMap.Get(gvr).ForEach(func(cname clusterName, c *syncResourceStore[
 		namespaceName,
@@ -322,21 +326,7 @@ func (m *memoryStore) Query(gvr store.GroupVersionResource, query store.Query) s
 		return res
 	}
 	res.Total = l
-	var start, end int64
-	if query.PageSize == 0 {
-		// all resources
-		start = 0
-		end = l
-	} else {
-		start = (query.Page - 1) * query.PageSize
-		end = start + query.PageSize
-		if start >= l {
-			start = l
-		}
-		if end >= l {
-			end = l
-		}
-	}
+	start, end := query.Range(l)
 	for _, r := range resources[start:end] {
 		res.Items = append(res.Items, r.Obj)
 	}
-- 
2.43.0


From 31297353a964e214c65c7da1d2daa065b96352d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:02 +0000
Subject: [PATCH 21/52] fix: index integers as they are written

---
 utils/utils.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/utils/utils.go b/utils/utils.go
index 071c8e1..93454a5 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -1,10 +1,15 @@
 package utils
 
-import "encoding/json"
+import (
+	"encoding/json"
+
+	utiljson "k8s.io/apimachinery/pkg/util/json"
+)
 
 func Obj2JSONMap(obj interface{}) map[string]interface{} {
 	m := make(map[string]interface{})
 	bs, _ := json.Marshal(obj)
-	_ = json.Unmarshal(bs, &m)
+	// keeps integers as int64, as floats they would be indexed like 1.234567e+06
+	_ = utiljson.Unmarshal(bs, &m)
 	return m
 }
-- 
2.43.0


From d349b7c2e91007e4eedf808c6d97ddd60a12eebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:32 +0000
Subject: [PATCH 22/52] fix: do not return objects unsorted for a malformed
 sort

---
 store/memory/memory.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/store/memory/memory.go b/store/memory/memory.go
index f96b6d9..0b11409 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -195,9 +195,9 @@ func sortObjs(objs []store.Object, s string) ([]store.Object, error) {
 			typ:     constants.KeyTypeStr,
 		}
 		if strings.Contains(s, " ") {
-			parts := strings.Split(s, " ")
+			parts := strings.Fields(s)
 			if len(parts) > 2 {
-				return objs, nil
+				return objs, fmt.Errorf("error sort format `%s`", s)
 			}
 			if len(parts) == 2 {
 				switch parts[1] {
-- 
2.43.0


From a37540b350f5231b66067fc622b2f801c86d389b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:36 +0000
Subject: [PATCH 23/52] fix: keep watching configuration files that are
 renamed, replaced or missing for a while

---
 utils/fs_watcher.go | 110 ++++++++++++++++++++++++++++----------------
 1 file changed, 71 insertions(+), 39 deletions(-)

diff --git a/utils/fs_watcher.go b/utils/fs_watcher.go
index 4c16ab3..8b4eb9e 100644
--- a/utils/fs_watcher.go
+++ b/utils/fs_watcher.go
@@ -24,14 +24,18 @@ type Event struct {
 type EventType int
 
 const (
-	EventTypeChanged = iota
+	EventTypeChanged EventType = iota
 	EventTypeError
 )
 
+// retryInterval is how long to wait before a file that is gone is looked for again.
+const retryInterval = time.Second * 2
+
 type fixedFileWatcher struct {
 	files     []string
 	fswatcher *fsnotify.Watcher
 	events    chan Event
+	done      chan struct{}
 }
 
 func NewFixedFileWatcher(files []string) (FixedFileWatcher, error) {
@@ -39,6 +43,7 @@ func NewFixedFileWatcher(files []string) (FixedFileWatcher, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer w.Close()
 	for _, f := range files {
 		if _, err := os.Stat(f); err != nil {
 			return nil, err
@@ -50,6 +55,7 @@ func NewFixedFileWatcher(files []string) (FixedFileWatcher, error) {
 	return &fixedFileWatcher{
 		files:  files,
 		events: make(chan Event),
+		done:   make(chan struct{}),
 	}, nil
 }
 
@@ -58,60 +64,86 @@ func (w *fixedFileWatcher) Start() error {
 	if err != nil {
 		return err
 	}
-	w.fswatcher = ww
 	for _, f := range w.files {
-		if err := w.fswatcher.Add(f); err != nil {
+		if err := ww.Add(f); err != nil {
+			ww.Close()
 			return err
 		}
 	}
-	go func() {
-		for { // nolint:gosimple
-			select {
-			case e, open := <-w.fswatcher.Events:
-				if !open {
-					log.Info("fs watcher closed")
-					return
+	w.fswatcher = ww
+	go w.run(ww)
+	return nil
+}
+
+func (w *fixedFileWatcher) run(ww *fsnotify.Watcher) {
+	defer close(w.events)
+	emit := func(name string, typ EventType) {
+		select {
+		case w.events <- Event{Name: name, Type: typ}:
+		case <-w.done:
+		}
+	}
+	// files that are not watched at the moment, true if that has been reported
+	lost := map[string]bool{}
+	var retry <-chan time.Time
+	for {
+		select {
+		case <-w.done:
+			return
+		case e, open := <-ww.Events:
+			if !open {
+				log.Info("fs watcher closed")
+				return
+			}
+			log.Infof("get file watcher event: %v", e)
+			switch {
+			case e.Op&(fsnotify.Remove|fsnotify.Rename) != 0:
+				// 在 Kubernetes 里面，当挂载 ConfigMap 的时候，如果发生文件重新，Kubernetes 会首先删除这个文件
+				// 再重新创建，所以我们应该在删除之后重新建立 watcher。
+				_ = ww.Remove(e.Name)
+				if _, ok := lost[e.Name]; !ok {
+					lost[e.Name] = false
+				}
+				if retry == nil {
+					retry = time.After(retryInterval)
 				}
-				log.Infof("get file watcher event: %v", e)
-				switch e.Op {
-				case fsnotify.Write:
-					// do reload
-				case fsnotify.Remove:
-					// 在 Kubernetes 里面，当挂载 ConfigMap 的时候，如果发生文件重新，Kubernetes 会首先删除这个文件
-					// 再重新创建，所以我们应该在删除之后重新建立 watcher。
-					_ = w.fswatcher.Remove(e.Name)
-					time.Sleep(time.Second * 2)
-					// 等待一定时间之后重新加入 watcher 队列
-					err := w.fswatcher.Add(e.Name)
-					if err != nil {
-						log.Errorf("add watcher for %s error: %v", e.Name, err)
-						w.events <- Event{
-							Name: e.Name,
-							Type: EventTypeError,
-						}
-						continue
+			case e.Op&fsnotify.Write != 0:
+				emit(e.Name, EventTypeChanged)
+			}
+		case err, open := <-ww.Errors:
+			if !open {
+				return
+			}
+			// events may be lost
+			log.Errorf("file watcher error: %v", err)
+			for _, f := range w.files {
+				emit(f, EventTypeChanged)
+			}
+		case <-retry:
+			// 等待一定时间之后重新加入 watcher 队列
+			retry = nil
+			for name, reported := range lost {
+				if err := ww.Add(name); err != nil {
+					log.Errorf("add watcher for %s error: %v", name, err)
+					if !reported {
+						lost[name] = true
+						emit(name, EventTypeError)
 					}
-					// do reload
-				default:
-					// do not reload
+					retry = time.After(retryInterval)
 					continue
 				}
-				w.events <- Event{
-					Name: e.Name,
-					Type: EventTypeChanged,
-				}
+				delete(lost, name)
+				emit(name, EventTypeChanged)
 			}
 		}
-	}()
-	return nil
+	}
 }
 
 func (w *fixedFileWatcher) Close() error {
 	if w.fswatcher != nil {
+		close(w.done)
 		w.fswatcher.Close()
 		w.fswatcher = nil
-		close(w.events)
-		w.events = nil
 	}
 	return nil
 }
-- 
2.43.0


From 8125e2d5643501e7947fef7acf2a8bed3b79fb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:22 +0000
Subject: [PATCH 24/52] fix: take all of the kubeconfig from one read and
 refuse one without contexts

---
 cmd/cacheproxy/main.go | 54 +++++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/cmd/cacheproxy/main.go b/cmd/cacheproxy/main.go
index 13d4ff1..308ea60 100644
--- a/cmd/cacheproxy/main.go
+++ b/cmd/cacheproxy/main.go
@@ -10,8 +10,7 @@ import (
 	"k8s.io/client-go/kubernetes"
 	"k8s.io/client-go/rest"
 	"k8s.io/client-go/tools/clientcmd"
-	kubeapi "k8s.io/client-go/tools/clientcmd/api/v1"
-	"sigs.k8s.io/yaml"
+	kubeapi "k8s.io/client-go/tools/clientcmd/api"
 
 	"github.com/DaoCloud/ckube/common"
 	"github.com/DaoCloud/ckube/log"
@@ -65,6 +64,27 @@ func GetKubernetesClientWithFile(kubeconfig, context string) (kubernetes.Interfa
 	return clientset, err
 }
 
+func parseKubeConfig(file string, bs []byte) (*kubeapi.Config, error) {
+	kubecfg, err := clientcmd.Load(bs)
+	if err != nil {
+		return nil, err
+	}
+	if len(kubecfg.Contexts) == 0 {
+		return nil, fmt.Errorf("no contexts")
+	}
+	// certificate files are relative to the kube config
+	for _, c := range kubecfg.Clusters {
+		c.LocationOfOrigin = file
+	}
+	for _, a := range kubecfg.AuthInfos {
+		a.LocationOfOrigin = file
+	}
+	if err := clientcmd.ResolveLocalPaths(kubecfg); err != nil {
+		return nil, err
+	}
+	return kubecfg, nil
+}
+
 func loadFromConfig(kubeConfig, configFile string) (map[string]kubernetes.Interface, watcher.Watcher, store.Store, error) {
 
 	cfg := common.Config{}
@@ -80,7 +100,6 @@ func loadFromConfig(kubeConfig, configFile string) (map[string]kubernetes.Interf
 	}
 	clusterConfigs := map[string]rest.Config{}
 	clusterClients := map[string]kubernetes.Interface{}
-	kubecfg := kubeapi.Config{}
 	if kubeConfig == "" {
 		defaultConfig := path.Join(os.Getenv("HOME"), ".kube/config")
 		if _, err := os.Stat(defaultConfig); err != nil {
@@ -105,35 +124,36 @@ func loadFromConfig(kubeConfig, configFile string) (map[string]kubernetes.Interf
 		}
 	}
 	if kubeConfig != "" {
+		// the file may change at any time, so everything comes from one read
 		bs, err := os.ReadFile(kubeConfig)
 		if err != nil {
 			log.Errorf("read kube config error: %v", err)
 			return nil, nil, nil, err
 		}
-		err = yaml.Unmarshal(bs, &kubecfg)
+		kubecfg, err := parseKubeConfig(kubeConfig, bs)
 		if err != nil {
-			err = json.Unmarshal(bs, &kubecfg)
-			if err != nil {
-				log.Errorf("parse kube config %s error: %v", kubeConfig, err)
-				return nil, nil, nil, err
-			}
+			log.Errorf("parse kube config %s error: %v", kubeConfig, err)
+			return nil, nil, nil, err
 		}
 		log.Debugf("got kube config: %s", bs)
 		cfg.DefaultCluster = kubecfg.CurrentContext
 
-		for _, ctx := range kubecfg.Contexts {
-			c := GetK8sConfigConfigWithFile(kubeConfig, ctx.Name)
-			if c == nil {
-				log.Errorf("init k8s config error")
-				return nil, nil, nil, fmt.Errorf("init k8s config error")
+		for name := range kubecfg.Contexts {
+			c, err := clientcmd.NewNonInteractiveClientConfig(*kubecfg, name, &clientcmd.ConfigOverrides{
+				ClusterDefaults: clientcmd.ClusterDefaults,
+				CurrentContext:  name,
+			}, nil).ClientConfig()
+			if err != nil {
+				log.Errorf("init k8s config error: %v", err)
+				return nil, nil, nil, fmt.Errorf("init k8s config error: %v", err)
 			}
-			clusterConfigs[ctx.Name] = *c
-			client, err := GetKubernetesClientWithFile(kubeConfig, ctx.Name)
+			clusterConfigs[name] = *c
+			client, err := kubernetes.NewForConfig(c)
 			if err != nil {
 				log.Errorf("init k8s client error: %v", err)
 				return nil, nil, nil, err
 			}
-			clusterClients[ctx.Name] = client
+			clusterClients[name] = client
 		}
 	}
 	common.InitConfig(&cfg)
-- 
2.43.0


From 1c2f361dca485d7b2a7a6ce970da10812298a53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:54 +0000
Subject: [PATCH 25/52] fix: switch configuration, store and clients at once,
 so that no request mixes two configurations

---
 api/extend/deploy2service.go |  3 +--
 api/proxy.go                 | 12 ++++-------
 api/req.go                   | 11 ++++++++++
 cmd/cacheproxy/main.go       | 40 +++++++++++++++++-----------------
 common/config.go             | 25 +++++++++++++--------
 server/server.go             | 42 +++++++++++++++++++++++++++++-------
 6 files changed, 86 insertions(+), 47 deletions(-)

diff --git a/api/extend/deploy2service.go b/api/extend/deploy2service.go
index 1dada9e..e6297fb 100644
--- a/api/extend/deploy2service.go
+++ b/api/extend/deploy2service.go
@@ -9,7 +9,6 @@ import (
 	"k8s.io/apimachinery/pkg/util/json"
 
 	"github.com/DaoCloud/ckube/api"
-	"github.com/DaoCloud/ckube/common"
 	"github.com/DaoCloud/ckube/page"
 	"github.com/DaoCloud/ckube/store"
 	"github.com/DaoCloud/ckube/utils"
@@ -32,7 +31,7 @@ func Deploy2Service(r *api.ReqContext) interface{} {
 		Resource: "services",
 	}
 	if cluster == "" {
-		cluster = common.GetConfig().DefaultCluster
+		cluster = r.GetConfig().DefaultCluster
 	}
 	p := page.Paginate{Search: "name=" + dep}
 	_ = p.Clusters([]string{cluster})
diff --git a/api/proxy.go b/api/proxy.go
index d08cffc..4dc8cb1 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -20,7 +20,6 @@ import (
 	"k8s.io/apimachinery/pkg/types"
 	"k8s.io/client-go/rest"
 
-	"github.com/DaoCloud/ckube/common"
 	"github.com/DaoCloud/ckube/common/constants"
 	"github.com/DaoCloud/ckube/kube"
 	"github.com/DaoCloud/ckube/log"
@@ -177,9 +176,6 @@ func parsePaginateAndLabelsAndClean(r *http.Request) (*page.Paginate, *v1.LabelS
 	if cs := paginate.GetClusters(); len(cs) > 0 && cluster == "" {
 		cluster = cs[0]
 	}
-	if cluster == "" {
-		cluster = common.GetConfig().DefaultCluster
-	}
 	return &paginate, labels, cluster, nil
 }
 
@@ -193,7 +189,7 @@ func Proxy(r *ReqContext) interface{} {
 		return proxyPass(r, cluster)
 	}
 	if cluster == "" {
-		cluster = common.GetConfig().DefaultCluster
+		cluster = r.GetConfig().DefaultCluster
 	}
 	for k, v := range r.Request.URL.Query() {
 		switch k {
@@ -220,7 +216,7 @@ func Proxy(r *ReqContext) interface{} {
 	// If you want to get all clusters' resources,
 	// please call paginate.Clusters() before fetch resources
 	if cs := paginate.GetClusters(); len(cs) == 0 {
-		err = paginate.Clusters([]string{common.GetConfig().DefaultCluster})
+		err = paginate.Clusters([]string{r.GetConfig().DefaultCluster})
 		if err != nil {
 			log.Errorf("set cluster error: %v", err)
 		}
@@ -313,7 +309,7 @@ func Proxy(r *ReqContext) interface{} {
 	}
 	return map[string]interface{}{
 		"apiVersion": apiVersion,
-		"kind":       common.GetGVRKind(gvr.Group, gvr.Version, gvr.Resource),
+		"kind":       r.GetConfig().GVRKind(gvr.Group, gvr.Version, gvr.Resource),
 		"metadata": map[string]interface{}{
 			"selfLink":           r.Request.URL.Path,
 			"remainingItemCount": remainCount,
@@ -496,7 +492,7 @@ func getRequest(r *ReqContext, cluster string, timeout time.Duration) (*rest.Req
 
 func proxyPass(r *ReqContext, cluster string) interface{} {
 	if cluster == "" {
-		cluster = common.GetConfig().DefaultCluster
+		cluster = r.GetConfig().DefaultCluster
 	}
 	if _, ok := r.ClusterClients[cluster]; !ok {
 		return errorProxy(r.Writer, v1.Status{
diff --git a/api/req.go b/api/req.go
index b43fc23..eaac16b 100644
--- a/api/req.go
+++ b/api/req.go
@@ -3,6 +3,7 @@ package api
 import (
 	"net/http"
 
+	"github.com/DaoCloud/ckube/common"
 	"github.com/DaoCloud/ckube/store"
 	"k8s.io/client-go/kubernetes"
 )
@@ -12,4 +13,14 @@ type ReqContext struct {
 	Store          store.Store
 	Request        *http.Request
 	Writer         http.ResponseWriter
+	// Config is the configuration the clients and the store belong to.
+	Config *common.Config
+}
+
+// GetConfig returns the configuration to answer this request with.
+func (r *ReqContext) GetConfig() common.Config {
+	if r.Config != nil {
+		return *r.Config
+	}
+	return common.GetConfig()
 }
diff --git a/cmd/cacheproxy/main.go b/cmd/cacheproxy/main.go
index 308ea60..75c9e50 100644
--- a/cmd/cacheproxy/main.go
+++ b/cmd/cacheproxy/main.go
@@ -85,17 +85,18 @@ func parseKubeConfig(file string, bs []byte) (*kubeapi.Config, error) {
 	return kubecfg, nil
 }
 
-func loadFromConfig(kubeConfig, configFile string) (map[string]kubernetes.Interface, watcher.Watcher, store.Store, error) {
+// loadFromConfig reads the configuration and makes everything it asks for, but puts nothing of it into force.
+func loadFromConfig(kubeConfig, configFile string) (*common.Config, map[string]kubernetes.Interface, watcher.Watcher, store.Store, error) {
 
 	cfg := common.Config{}
 	if bs, err := os.ReadFile(configFile); err != nil {
 		log.Errorf("config file load error: %v", err)
-		return nil, nil, nil, err
+		return nil, nil, nil, nil, err
 	} else {
 		err := json.Unmarshal(bs, &cfg)
 		if err != nil {
 			log.Errorf("config file load error: %v", err)
-			return nil, nil, nil, err
+			return nil, nil, nil, nil, err
 		}
 	}
 	clusterConfigs := map[string]rest.Config{}
@@ -108,7 +109,7 @@ func loadFromConfig(kubeConfig, configFile string) (map[string]kubernetes.Interf
 			c := GetK8sConfigConfigWithFile(kubeConfig, "")
 			if c == nil {
 				log.Errorf("init k8s config from service account error")
-				return nil, nil, nil, fmt.Errorf("init k8s config error")
+				return nil, nil, nil, nil, fmt.Errorf("init k8s config error")
 			}
 			if cfg.DefaultCluster == "" {
 				cfg.DefaultCluster = "default"
@@ -116,7 +117,7 @@ func loadFromConfig(kubeConfig, configFile string) (map[string]kubernetes.Interf
 			clusterConfigs[cfg.DefaultCluster] = *c
 			client, err := GetKubernetesClientWithFile(kubeConfig, "")
 			if err != nil {
-				return nil, nil, nil, err
+				return nil, nil, nil, nil, err
 			}
 			clusterClients[cfg.DefaultCluster] = client
 		} else {
@@ -128,12 +129,12 @@ func loadFromConfig(kubeConfig, configFile string) (map[string]kubernetes.Interf
 		bs, err := os.ReadFile(kubeConfig)
 		if err != nil {
 			log.Errorf("read kube config error: %v", err)
-			return nil, nil, nil, err
+			return nil, nil, nil, nil, err
 		}
 		kubecfg, err := parseKubeConfig(kubeConfig, bs)
 		if err != nil {
 			log.Errorf("parse kube config %s error: %v", kubeConfig, err)
-			return nil, nil, nil, err
+			return nil, nil, nil, nil, err
 		}
 		log.Debugf("got kube config: %s", bs)
 		cfg.DefaultCluster = kubecfg.CurrentContext
@@ -145,22 +146,17 @@ func loadFromConfig(kubeConfig, configFile string) (map[string]kubernetes.Interf
 			}, nil).ClientConfig()
 			if err != nil {
 				log.Errorf("init k8s config error: %v", err)
-				return nil, nil, nil, fmt.Errorf("init k8s config error: %v", err)
+				return nil, nil, nil, nil, fmt.Errorf("init k8s config error: %v", err)
 			}
 			clusterConfigs[name] = *c
 			client, err := kubernetes.NewForConfig(c)
 			if err != nil {
 				log.Errorf("init k8s client error: %v", err)
-				return nil, nil, nil, err
+				return nil, nil, nil, nil, err
 			}
 			clusterClients[name] = client
 		}
 	}
-	common.InitConfig(&cfg)
-
-	// 记录组件运行状态
-	prommonitor.Up.WithLabelValues(prommonitor.CkubeComponent).Set(1)
-
 	indexConf := map[store.GroupVersionResource]map[string]string{}
 	storeGVRConfig := []store.GroupVersionResource{}
 	for _, proxy := range cfg.Proxies {
@@ -177,8 +173,7 @@ func loadFromConfig(kubeConfig, configFile string) (map[string]kubernetes.Interf
 	}
 	m := memory.NewMemoryStore(indexConf)
 	w := watcher.NewWatcher(clusterConfigs, storeGVRConfig, m)
-	_ = w.Start()
-	return clusterClients, w, m, nil
+	return &cfg, clusterClients, w, m, nil
 }
 
 func main() {
@@ -195,11 +190,15 @@ func main() {
 	if debug {
 		log.SetDebug()
 	}
-	clis, w, s, err := loadFromConfig(kubeConfig, configFile)
+	cfg, clis, w, s, err := loadFromConfig(kubeConfig, configFile)
 	if err != nil {
 		log.Errorf("load from config file error: %v", err)
 		os.Exit(1)
 	}
+	common.InitConfig(cfg)
+	// 记录组件运行状态
+	prommonitor.Up.WithLabelValues(prommonitor.CkubeComponent).Set(1)
+	_ = w.Start()
 	ser := server.NewMuxServer(listen, clis, s)
 	files := []string{configFile}
 	if kubeConfig == "" {
@@ -225,16 +224,17 @@ func main() {
 					log.Errorf("got file watcher error type: file: %s", e.Name)
 					// do reload
 				}
-				clis, rw, rs, err := loadFromConfig(kubeConfig, configFile)
+				cfg, clis, rw, rs, err := loadFromConfig(kubeConfig, configFile)
 				if err != nil {
 					prommonitor.ConfigReload.WithLabelValues("failed").Inc()
 					log.Errorf("watcher: reload config error: %v", err)
 					continue
 				}
-				prommonitor.Resources.Reset()
 				_ = w.Stop()
+				prommonitor.Resources.Reset()
+				ser.Reload(cfg, rs, clis)
 				w = rw
-				ser.ResetStore(rs, clis) // reset store
+				_ = w.Start()
 				prommonitor.ConfigReload.WithLabelValues("success").Inc()
 				log.Infof("auto reloaded config successfully")
 			}
diff --git a/common/config.go b/common/config.go
index a06eefc..6d3795d 100644
--- a/common/config.go
+++ b/common/config.go
@@ -1,5 +1,7 @@
 package common
 
+import "sync/atomic"
+
 type Proxy struct {
 	Group    string            `json:"group"`
 	Version  string            `json:"version"`
@@ -19,24 +21,29 @@ type Config struct {
 	Token          string `json:"token"`
 }
 
-var cfg *Config
+// GVRKind returns the list kind of a proxied resource.
+func (c Config) GVRKind(g, v, r string) string {
+	for _, p := range c.Proxies {
+		if p.Group == g && p.Version == v && p.Resource == r {
+			return p.ListKind
+		}
+	}
+	return ""
+}
+
+var cfg atomic.Pointer[Config]
 
 func InitConfig(c *Config) {
 	if c.DefaultCluster == "" {
 		c.DefaultCluster = "default"
 	}
-	cfg = c
+	cfg.Store(c)
 }
 
 func GetConfig() Config {
-	return *cfg
+	return *cfg.Load()
 }
 
 func GetGVRKind(g, v, r string) string {
-	for _, p := range cfg.Proxies {
-		if p.Group == g && p.Version == v && p.Resource == r {
-			return p.ListKind
-		}
-	}
-	return ""
+	return GetConfig().GVRKind(g, v, r)
 }
diff --git a/server/server.go b/server/server.go
index 2f87510..6b2d036 100644
--- a/server/server.go
+++ b/server/server.go
@@ -7,6 +7,7 @@ import (
 	"net/http"
 	"runtime/debug"
 	"strings"
+	"sync"
 	"time"
 
 	v1 "k8s.io/apimachinery/pkg/apis/meta/v1"
@@ -26,6 +27,9 @@ type Server interface {
 	Run() error
 	Stop() error
 	ResetStore(store store.Store, clis map[string]kubernetes.Interface)
+	// Reload replaces configuration, store and clients at once:
+	// no request is answered with parts of both.
+	Reload(cfg *common.Config, store store.Store, clis map[string]kubernetes.Interface)
 }
 
 type muxServer struct {
@@ -35,6 +39,8 @@ type muxServer struct {
 	server         *http.Server
 	store          store.Store
 	clusterClients map[string]kubernetes.Interface
+	// lock guards store, clusterClients and the configuration they belong to
+	lock sync.RWMutex
 }
 
 type statusWriter struct {
@@ -117,10 +123,34 @@ func (m *muxServer) Stop() error {
 }
 
 func (m *muxServer) ResetStore(s store.Store, clis map[string]kubernetes.Interface) {
+	m.lock.Lock()
+	defer m.lock.Unlock()
 	m.store = s
 	m.clusterClients = clis
 }
 
+func (m *muxServer) Reload(cfg *common.Config, s store.Store, clis map[string]kubernetes.Interface) {
+	m.lock.Lock()
+	defer m.lock.Unlock()
+	common.InitConfig(cfg)
+	m.store = s
+	m.clusterClients = clis
+}
+
+// reqContext collects everything a request is answered with.
+func (m *muxServer) reqContext(writer http.ResponseWriter, r *http.Request) *api.ReqContext {
+	m.lock.RLock()
+	defer m.lock.RUnlock()
+	cfg := common.GetConfig()
+	return &api.ReqContext{
+		ClusterClients: m.clusterClients,
+		Store:          m.store,
+		Request:        r,
+		Writer:         writer,
+		Config:         &cfg,
+	}
+}
+
 func jsonResp(writer http.ResponseWriter, status int, v interface{}) {
 	b, _ := json.Marshal(v)
 	writer.Header().Set("Content-Type", "application/json")
@@ -151,8 +181,9 @@ func (m *muxServer) registerRoutes(router *mux.Router, handleRoutes []route) {
 						jsonResp(writer, http.StatusInternalServerError, err)
 					}
 				}()
-				if route.authRequired && common.GetConfig().Token != "" {
-					if !strings.Contains(r.Header.Get("Authorization"), common.GetConfig().Token) {
+				ctx := m.reqContext(writer, r)
+				if token := ctx.GetConfig().Token; route.authRequired && token != "" {
+					if !strings.Contains(r.Header.Get("Authorization"), token) {
 						jsonResp(writer, http.StatusUnauthorized, v1.Status{
 							Status:  string(v1.StatusReasonUnauthorized),
 							Message: "token missing or error",
@@ -162,12 +193,7 @@ func (m *muxServer) registerRoutes(router *mux.Router, handleRoutes []route) {
 						return
 					}
 				}
-				var res = route.handler(&api.ReqContext{
-					ClusterClients: m.clusterClients,
-					Store:          m.store,
-					Request:        r,
-					Writer:         writer,
-				})
+				var res = route.handler(ctx)
 				if res == nil {
 					return
 				}
-- 
2.43.0


From c81ed03423fe26b3b3497308a4328297b703552c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:34 +0000
Subject: [PATCH 26/52] fix: let a stopped watcher neither wait for an api
 server nor change the store

---
 watcher/watcher.go | 56 +++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 53 insertions(+), 3 deletions(-)

diff --git a/watcher/watcher.go b/watcher/watcher.go
index 879ed75..715a37d 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -5,6 +5,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"strings"
+	"sync"
 	"time"
 
 	v1 "k8s.io/apimachinery/pkg/apis/meta/v1"
@@ -23,27 +24,76 @@ import (
 type watcher struct {
 	clusterConfigs map[string]rest.Config
 	resources      []store.GroupVersionResource
-	store          store.Store
+	store          *stoppableStore
 	stop           chan struct{}
+	ctx            context.Context
+	cancel         context.CancelFunc
 	scheme         *runtime.Scheme
 	Watcher
 }
 
 func NewWatcher(clusterConfigs map[string]rest.Config, resources []store.GroupVersionResource, store store.Store) Watcher {
+	ctx, cancel := context.WithCancel(context.Background())
 	return &watcher{
 		clusterConfigs: clusterConfigs,
 		resources:      resources,
-		store:          store,
+		store:          &stoppableStore{Store: store},
 		stop:           make(chan struct{}),
+		ctx:            ctx,
+		cancel:         cancel,
 		scheme:         runtime.NewScheme(),
 	}
 }
 
+// Stop ends all streams, also those that are just being opened. Nothing is
+// written to the store, or counted, once it returned.
 func (w *watcher) Stop() error {
 	close(w.stop)
+	w.cancel()
+	w.store.stop()
 	return nil
 }
 
+var errStopped = fmt.Errorf("watcher is stopped")
+
+// stoppableStore does not change any more once it is stopped.
+type stoppableStore struct {
+	store.Store
+	lock    sync.RWMutex
+	stopped bool
+}
+
+func (s *stoppableStore) stop() {
+	s.lock.Lock()
+	defer s.lock.Unlock()
+	s.stopped = true
+}
+
+func (s *stoppableStore) change(f func() error) error {
+	s.lock.RLock()
+	defer s.lock.RUnlock()
+	if s.stopped {
+		return errStopped
+	}
+	return f()
+}
+
+func (s *stoppableStore) Clean(gvr store.GroupVersionResource, cluster string) error {
+	return s.change(func() error { return s.Store.Clean(gvr, cluster) })
+}
+
+func (s *stoppableStore) OnResourceAdded(gvr store.GroupVersionResource, cluster string, obj interface{}) error {
+	return s.change(func() error { return s.Store.OnResourceAdded(gvr, cluster, obj) })
+}
+
+func (s *stoppableStore) OnResourceModified(gvr store.GroupVersionResource, cluster string, obj interface{}) error {
+	return s.change(func() error { return s.Store.OnResourceModified(gvr, cluster, obj) })
+}
+
+func (s *stoppableStore) OnResourceDeleted(gvr store.GroupVersionResource, cluster string, obj interface{}) error {
+	return s.change(func() error { return s.Store.OnResourceDeleted(gvr, cluster, obj) })
+}
+
 type ObjType struct {
 	v1.TypeMeta   `json:",inline"`
 	v1.ObjectMeta `json:"metadata,omitempty" protobuf:"bytes,1,opt,name=metadata"`
@@ -154,7 +204,7 @@ func (w *watcher) watchResources(r store.GroupVersionResource, gvk schema.GroupV
 			return
 		default:
 		}
-		ctx, cancel := context.WithTimeout(context.Background(), time.Hour)
+		ctx, cancel := context.WithTimeout(w.ctx, time.Hour)
 		url := ""
 		if r.Group == "" {
 			url = fmt.Sprintf("/api/%s/%s?watch=true", r.Version, r.Resource)
-- 
2.43.0


From e3ac4619ccf7454c13eb20ed7eb2e49bcfe2c8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 27/52] fix: count cleaned resources as gone

---
 store/memory/memory.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/store/memory/memory.go b/store/memory/memory.go
index 0b11409..210b445 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -139,6 +139,9 @@ func (m *memoryStore) Clean(gvr store.GroupVersionResource, cluster string) erro
 	for _, c := range m.resourceMap.Get(gvr).Get(clusterName(cluster)).Values() {
 		c.Clean()
 	}
+	m.resourceMap.Get(gvr).Get(clusterName(cluster)).ForEach(func(ns namespaceName, _ *syncResourceStore[string, store.Object]) {
+		prommonitor.Resources.WithLabelValues(cluster, gvr.Group, gvr.Version, gvr.Resource, string(ns)).Set(0)
+	})
 	return nil
 }
 
-- 
2.43.0


From 2acd9773e52b2f6ffca2eb39a61f07a9afa07602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:45 +0000
Subject: [PATCH 28/52] fix: list the services of the asked for deployment,
 whatever its pods are called

---
 api/extend/deploy2service.go | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/api/extend/deploy2service.go b/api/extend/deploy2service.go
index e6297fb..328c85b 100644
--- a/api/extend/deploy2service.go
+++ b/api/extend/deploy2service.go
@@ -1,6 +1,7 @@
 package extend
 
 import (
+	"fmt"
 	"strings"
 
 	"github.com/gorilla/mux"
@@ -33,7 +34,17 @@ func Deploy2Service(r *api.ReqContext) interface{} {
 	if cluster == "" {
 		cluster = r.GetConfig().DefaultCluster
 	}
-	p := page.Paginate{Search: "name=" + dep}
+	for _, gvr := range []store.GroupVersionResource{podGvr, svcGvr} {
+		if !r.Store.IsStoreGVR(gvr) {
+			return v12.Status{
+				Status:  v12.StatusFailure,
+				Message: fmt.Sprintf("resource %v is not cached", gvr),
+				Reason:  v12.StatusReasonNotFound,
+				Code:    404,
+			}
+		}
+	}
+	p := page.Paginate{}
 	_ = p.Clusters([]string{cluster})
 	res := r.Store.Query(podGvr, store.Query{
 		Namespace: ns,
@@ -42,14 +53,10 @@ func Deploy2Service(r *api.ReqContext) interface{} {
 	if res.Error != nil {
 		return res.Error
 	}
-	var labels map[string]string
+	pods := []map[string]string{}
 	for _, podIf := range res.Items {
-		if pod, ok := podIf.(v12.Object); ok {
-			depName := getDeploymentName(pod)
-			if depName != "" {
-				labels = pod.GetLabels()
-				break
-			}
+		if pod, ok := podIf.(v12.Object); ok && getDeploymentName(pod) == dep {
+			pods = append(pods, pod.GetLabels())
 		}
 	}
 	p = page.Paginate{}
@@ -69,8 +76,15 @@ func Deploy2Service(r *api.ReqContext) interface{} {
 		} else {
 			svc = svcIf.(*v1.Service)
 		}
-		if svc.Spec.Selector != nil && utils.IsSubsetOf(svc.Spec.Selector, labels) {
-			services = append(services, svc)
+		if len(svc.Spec.Selector) == 0 {
+			// selects no pods
+			continue
+		}
+		for _, labels := range pods {
+			if utils.IsSubsetOf(svc.Spec.Selector, labels) {
+				services = append(services, svc)
+				break
+			}
 		}
 	}
 	return services
-- 
2.43.0


From 668b9c155d9c6a193bdb2dabdd56decd5b7ebf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:45 +0000
Subject: [PATCH 29/52] fix: keep requests to one cluster, whatever its name
 looks like

---
 api/extend/deploy2service.go | 4 ++--
 api/proxy.go                 | 5 +----
 page/page.go                 | 8 ++++++++
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/api/extend/deploy2service.go b/api/extend/deploy2service.go
index 328c85b..354c9c1 100644
--- a/api/extend/deploy2service.go
+++ b/api/extend/deploy2service.go
@@ -45,7 +45,7 @@ func Deploy2Service(r *api.ReqContext) interface{} {
 		}
 	}
 	p := page.Paginate{}
-	_ = p.Clusters([]string{cluster})
+	p.OnlyCluster(cluster)
 	res := r.Store.Query(podGvr, store.Query{
 		Namespace: ns,
 		Paginate:  p,
@@ -60,7 +60,7 @@ func Deploy2Service(r *api.ReqContext) interface{} {
 		}
 	}
 	p = page.Paginate{}
-	_ = p.Clusters([]string{cluster})
+	p.OnlyCluster(cluster)
 	res = r.Store.Query(svcGvr, store.Query{
 		Namespace: ns,
 		Paginate:  p,
diff --git a/api/proxy.go b/api/proxy.go
index 4dc8cb1..09ea952 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -216,10 +216,7 @@ func Proxy(r *ReqContext) interface{} {
 	// If you want to get all clusters' resources,
 	// please call paginate.Clusters() before fetch resources
 	if cs := paginate.GetClusters(); len(cs) == 0 {
-		err = paginate.Clusters([]string{r.GetConfig().DefaultCluster})
-		if err != nil {
-			log.Errorf("set cluster error: %v", err)
-		}
+		paginate.OnlyCluster(r.GetConfig().DefaultCluster)
 	}
 	log.Debugf("got paginate %v", paginate)
 
diff --git a/page/page.go b/page/page.go
index 0f6125c..4835f2b 100644
--- a/page/page.go
+++ b/page/page.go
@@ -274,6 +274,14 @@ func (p *Paginate) Clusters(css []string) error {
 	return p.SetSearchSelector(s)
 }
 
+// OnlyCluster restricts the search to one cluster, whatever its name looks like.
+func (p *Paginate) OnlyCluster(cluster string) {
+	if p.Clusters([]string{cluster}) != nil {
+		// the name can not be a part of a label selector
+		p.SetSearchWithParts(append(p.SearchParts(), "cluster="+strconv.Quote(cluster)))
+	}
+}
+
 func (p *Paginate) GetClusters() []string {
 	if p == nil {
 		return nil
-- 
2.43.0


From fcb320edfed29794710b8cc6c68b62f34da7c739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:25 +0000
Subject: [PATCH 30/52] fix: watch a type once, even if the configuration lists
 it twice

---
 cmd/cacheproxy/main.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cmd/cacheproxy/main.go b/cmd/cacheproxy/main.go
index 75c9e50..e9c9fbb 100644
--- a/cmd/cacheproxy/main.go
+++ b/cmd/cacheproxy/main.go
@@ -160,16 +160,16 @@ func loadFromConfig(kubeConfig, configFile string) (*common.Config, map[string]k
 	indexConf := map[store.GroupVersionResource]map[string]string{}
 	storeGVRConfig := []store.GroupVersionResource{}
 	for _, proxy := range cfg.Proxies {
-		indexConf[store.GroupVersionResource{
+		gvr := store.GroupVersionResource{
 			Group:    proxy.Group,
 			Version:  proxy.Version,
 			Resource: proxy.Resource,
-		}] = proxy.Index
-		storeGVRConfig = append(storeGVRConfig, store.GroupVersionResource{
-			Group:    proxy.Group,
-			Version:  proxy.Version,
-			Resource: proxy.Resource,
-		})
+		}
+		if _, ok := indexConf[gvr]; !ok {
+			// one watcher is enough for a type that is listed twice
+			storeGVRConfig = append(storeGVRConfig, gvr)
+		}
+		indexConf[gvr] = proxy.Index
 	}
 	m := memory.NewMemoryStore(indexConf)
 	w := watcher.NewWatcher(clusterConfigs, storeGVRConfig, m)
-- 
2.43.0


From 2f0484eec565b00e90dc60d06a226a1eb428903d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:07 +0000
Subject: [PATCH 31/52] fix: fake server: apply changes one at a time and give
 every watcher all events

Changes raced on check-then-write, events were dropped for watchers which
were busy, and watchers which had left were never removed.
---
 pkg/client/fake/fake_ckube.go | 140 +++++++++++++++++++++-------------
 1 file changed, 86 insertions(+), 54 deletions(-)

diff --git a/pkg/client/fake/fake_ckube.go b/pkg/client/fake/fake_ckube.go
index 21daeb3..d729d74 100644
--- a/pkg/client/fake/fake_ckube.go
+++ b/pkg/client/fake/fake_ckube.go
@@ -19,7 +19,6 @@ import (
 	"github.com/DaoCloud/ckube/common"
 	"github.com/DaoCloud/ckube/common/constants"
 	"github.com/DaoCloud/ckube/kube"
-	"github.com/DaoCloud/ckube/log"
 	"github.com/DaoCloud/ckube/page"
 	"github.com/DaoCloud/ckube/server"
 	"github.com/DaoCloud/ckube/store"
@@ -28,12 +27,38 @@ import (
 )
 
 type fakeCkubeServer struct {
-	store         store.Store
-	ser           server.Server
-	kubeConfig    *rest.Config
-	eventChan     chan Event
-	watchChanMap  map[string]chan Event
-	watchChanLock sync.RWMutex
+	store      store.Store
+	ser        server.Server
+	kubeConfig *rest.Config
+	eventChan  chan Event
+	// lock orders changes and their events, and guards store and watchers
+	lock     sync.Mutex
+	watchers map[string]*eventQueue
+}
+
+// eventQueue holds the events that one watcher has not seen yet.
+type eventQueue struct {
+	lock   sync.Mutex
+	events []Event
+	wake   chan struct{}
+}
+
+func (q *eventQueue) push(e Event) {
+	q.lock.Lock()
+	q.events = append(q.events, e)
+	q.lock.Unlock()
+	select {
+	case q.wake <- struct{}{}:
+	default:
+	}
+}
+
+func (q *eventQueue) pop() []Event {
+	q.lock.Lock()
+	defer q.lock.Unlock()
+	es := q.events
+	q.events = nil
+	return es
 }
 
 func NewFakeCKubeServer(listenAddr string, config string) (CkubeServer, error) {
@@ -66,7 +91,7 @@ func NewFakeCKubeServer(listenAddr string, config string) (CkubeServer, error) {
 		kubeConfig: &rest.Config{
 			Host: addr,
 		},
-		watchChanMap: make(map[string]chan Event),
+		watchers: make(map[string]*eventQueue),
 	}
 	ser := server.NewMuxServer(listenAddr, nil, m, s.registerFakeRoute)
 	s.ser = ser
@@ -103,6 +128,8 @@ func (s *fakeCkubeServer) Clean() {
 		}] = proxy.Index
 	}
 	m := memory.NewMemoryStore(indexConf)
+	s.lock.Lock()
+	defer s.lock.Unlock()
 	s.ser.ResetStore(m, nil)
 	s.store = m
 }
@@ -315,27 +342,28 @@ func (s *fakeCkubeServer) watch(writer http.ResponseWriter, r *http.Request) {
 		}
 	}
 
-	s.watchChanLock.Lock()
-	s.watchChanMap[r.RemoteAddr] = make(chan Event)
-	s.watchChanLock.Unlock()
-	ctx, cancel := context.WithTimeout(context.Background(), 10*time.Minute)
+	q := &eventQueue{wake: make(chan struct{}, 1)}
+	s.lock.Lock()
+	s.watchers[r.RemoteAddr] = q
+	s.lock.Unlock()
+	defer func() {
+		s.lock.Lock()
+		delete(s.watchers, r.RemoteAddr)
+		s.lock.Unlock()
+	}()
+	ctx, cancel := context.WithTimeout(r.Context(), 10*time.Minute)
 	defer cancel()
 	writer.Header().Set("Content-Type", "application/json")
 	writer.Header().Set("Transfer-Encoding", "chunked")
 	writer.Header().Set("Connection", "keep-alive")
 	writer.(http.Flusher).Flush()
 	for {
-		s.watchChanLock.RLock()
-		wc := s.watchChanMap[r.RemoteAddr]
-		s.watchChanLock.RUnlock()
 		select {
 		case <-ctx.Done():
-			s.watchChanLock.Lock()
-			close(s.watchChanMap[r.RemoteAddr])
-			delete(s.watchChanMap, r.RemoteAddr)
-			s.watchChanLock.Unlock()
 			return
-		case e := <-wc:
+		case <-q.wake:
+		}
+		for _, e := range q.pop() {
 			if e.Group == group &&
 				e.Version == version &&
 				e.Resource == resourceType &&
@@ -409,53 +437,64 @@ func (s *fakeCkubeServer) proxy(writer http.ResponseWriter, r *http.Request) {
 	if resourceName == "" {
 		resourceName = obj.Name
 	}
+	del := metav1.DeleteOptions{}
+	if r.Method == "DELETE" {
+		_ = json.Unmarshal(bs, &del)
+		if len(del.DryRun) == 1 && strings.HasPrefix(del.DryRun[0], constants.ClusterPrefix) {
+			cluster = del.DryRun[0][len(constants.ClusterPrefix):]
+		}
+	}
+	if status := s.change(r.Method, gvr, cluster, namespace, resourceName, &obj, bs); status != nil {
+		errorProxy(writer, *status)
+		return
+	}
+	jsonResp(writer, 200, obj)
+}
+
+// change applies one change and tells everybody who listens. Changes take
+// effect one after another.
+func (s *fakeCkubeServer) change(method string, gvr store.GroupVersionResource, cluster, namespace, resourceName string, obj *watcher.ObjType, bs []byte) *metav1.Status {
+	s.lock.Lock()
+	defer s.lock.Unlock()
 	action := EventActionError
-	switch r.Method {
+	switch method {
 	case "POST":
 		action = EventActionAdd
 		if o := s.store.Get(gvr, cluster, namespace, resourceName); o != nil {
-			errorProxy(writer, metav1.Status{
+			return &metav1.Status{
 				Message: fmt.Sprintf("resource %v %s %s/%s already exists", gvr, cluster, namespace, resourceName),
 				Code:    400,
-			})
-			return
+			}
 		}
-		_ = s.store.OnResourceAdded(gvr, cluster, &obj)
+		_ = s.store.OnResourceAdded(gvr, cluster, obj)
 	case "PUT":
 		action = EventActionUpdate
 		if o := s.store.Get(gvr, cluster, namespace, resourceName); o == nil {
-			errorProxy(writer, metav1.Status{
+			return &metav1.Status{
 				Message: fmt.Sprintf("resource %v %s %s/%s not found", gvr, cluster, namespace, resourceName),
 				Code:    404,
-			})
-			return
+			}
 		}
-		_ = s.store.OnResourceModified(gvr, cluster, &obj)
+		_ = s.store.OnResourceModified(gvr, cluster, obj)
 	case "DELETE":
 		action = EventActionDelete
-		del := metav1.DeleteOptions{}
-		_ = json.Unmarshal(bs, &del)
-		if len(del.DryRun) == 1 && strings.HasPrefix(del.DryRun[0], constants.ClusterPrefix) {
-			cluster = del.DryRun[0][len(constants.ClusterPrefix):]
-		}
-		if o := s.store.Get(gvr, cluster, namespace, resourceName); o == nil {
-			errorProxy(writer, metav1.Status{
+		o := s.store.Get(gvr, cluster, namespace, resourceName)
+		if o == nil {
+			return &metav1.Status{
 				Message: fmt.Sprintf("resource %v %s %s/%s not found", gvr, cluster, namespace, resourceName),
 				Code:    404,
-			})
-			return
-		} else {
-			bs, _ = json.Marshal(o)
+			}
 		}
+		bs, _ = json.Marshal(o)
 		obj.Name = resourceName
 		obj.Namespace = namespace
-		_ = s.store.OnResourceDeleted(gvr, cluster, &obj)
+		_ = s.store.OnResourceDeleted(gvr, cluster, obj)
 	}
 	e := Event{
 		EventAction: action,
-		Group:       group,
-		Version:     version,
-		Resource:    resourceType,
+		Group:       gvr.Group,
+		Version:     gvr.Version,
+		Resource:    gvr.Resource,
 		Cluster:     cluster,
 		Namespace:   namespace,
 		Name:        resourceName,
@@ -465,15 +504,8 @@ func (s *fakeCkubeServer) proxy(writer http.ResponseWriter, r *http.Request) {
 	case s.eventChan <- e:
 	default:
 	}
-	s.watchChanLock.RLock()
-	for remote, c := range s.watchChanMap {
-		select {
-		case c <- e:
-			log.Debugf("succeed send stream to %s", remote)
-		default:
-			log.Infof("remote watcher %s no active stream", remote)
-		}
+	for _, q := range s.watchers {
+		q.push(e)
 	}
-	s.watchChanLock.RUnlock()
-	jsonResp(writer, 200, obj)
+	return nil
 }
-- 
2.43.0


From 7b57643ab9ef24ab019f74ce5f1b55c82b587075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:07 +0000
Subject: [PATCH 32/52] fix: fake server: answer changes with the whole object

---
 pkg/client/fake/fake_ckube.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/client/fake/fake_ckube.go b/pkg/client/fake/fake_ckube.go
index d729d74..43968f1 100644
--- a/pkg/client/fake/fake_ckube.go
+++ b/pkg/client/fake/fake_ckube.go
@@ -448,7 +448,7 @@ func (s *fakeCkubeServer) proxy(writer http.ResponseWriter, r *http.Request) {
 		errorProxy(writer, *status)
 		return
 	}
-	jsonResp(writer, 200, obj)
+	jsonResp(writer, 200, &obj)
 }
 
 // change applies one change and tells everybody who listens. Changes take
-- 
2.43.0


From 6d10f350f23bc1d2493827549731f72ea3f820fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:07 +0000
Subject: [PATCH 33/52] fix: fake server: do not crash on types which are not
 configured

---
 pkg/client/fake/fake_ckube.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/client/fake/fake_ckube.go b/pkg/client/fake/fake_ckube.go
index 43968f1..5d7e4e6 100644
--- a/pkg/client/fake/fake_ckube.go
+++ b/pkg/client/fake/fake_ckube.go
@@ -456,6 +456,12 @@ func (s *fakeCkubeServer) proxy(writer http.ResponseWriter, r *http.Request) {
 func (s *fakeCkubeServer) change(method string, gvr store.GroupVersionResource, cluster, namespace, resourceName string, obj *watcher.ObjType, bs []byte) *metav1.Status {
 	s.lock.Lock()
 	defer s.lock.Unlock()
+	if !s.store.IsStoreGVR(gvr) {
+		return &metav1.Status{
+			Message: fmt.Sprintf("resource %v not found", gvr),
+			Code:    404,
+		}
+	}
 	action := EventActionError
 	switch method {
 	case "POST":
-- 
2.43.0


From 14b56c38255eaf45969d4973ae3cb95b0a62bfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:07 +0000
Subject: [PATCH 34/52] fix: let watch handlers flush behind the access log

---
 server/server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/server.go b/server/server.go
index 6b2d036..13425d3 100644
--- a/server/server.go
+++ b/server/server.go
@@ -65,6 +65,11 @@ func (w *statusWriter) Write(b []byte) (int, error) {
 	return n, err
 }
 
+// Flush makes responses streamable for handlers which write events.
+func (w *statusWriter) Flush() {
+	w.ResponseWriter.(http.Flusher).Flush()
+}
+
 func loggingMiddleware(next http.Handler) http.Handler {
 	return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
 		st := time.Now()
-- 
2.43.0


From 31de8afb961c6ebba73e4ad5f3a22441a09b5ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:37 +0000
Subject: [PATCH 35/52] fix: let every requirement of a label selector count

a=1,a=2 selected by the last one only.
---
 kube/label.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kube/label.go b/kube/label.go
index f0e3608..7785de4 100644
--- a/kube/label.go
+++ b/kube/label.go
@@ -79,8 +79,12 @@ func ParseToLabelSelector(selector string) (*v1.LabelSelector, error) {
 			if !ok {
 				return nil, fmt.Errorf("equals operator has exactly one value but it cannot be retrieved")
 			}
-			labelSelector.MatchLabels[req.Key()] = val
-			continue
+			if old, ok := labelSelector.MatchLabels[req.Key()]; !ok || old == val {
+				labelSelector.MatchLabels[req.Key()] = val
+				continue
+			}
+			// every requirement counts, also a further one on the same key
+			op = v1.LabelSelectorOpIn
 		case selection.In:
 			op = v1.LabelSelectorOpIn
 		case selection.NotIn, selection.NotEquals:
-- 
2.43.0


From 183dfaa64d74dab4ac7e6a18a5eabfe4b5195e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:37 +0000
Subject: [PATCH 36/52] fix: strip cluster markers from requests with selectors
 ckube can not parse

---
 api/proxy.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/api/proxy.go b/api/proxy.go
index 09ea952..5ccd8ac 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -114,6 +114,8 @@ func parsePaginateAndLabelsAndClean(r *http.Request) (*page.Paginate, *v1.LabelS
 			}
 		}
 	}
+	// also what is passed on because it can not be understood has no markers
+	r.URL.RawQuery = query.Encode()
 	if r.Method == http.MethodDelete {
 		body := r.Body
 		opts, err := io.ReadAll(body)
-- 
2.43.0


From c5400d1a62310b0e06486992df98eb9e339906fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:37 +0000
Subject: [PATCH 37/52] fix: do not pass ckube's own selector on to API servers

---
 api/proxy.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/api/proxy.go b/api/proxy.go
index 5ccd8ac..35f17b3 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -172,6 +172,8 @@ func parsePaginateAndLabelsAndClean(r *http.Request) (*page.Paginate, *v1.LabelS
 		if len(labels.MatchLabels) != 0 || len(labels.MatchExpressions) != 0 {
 			// if labelSelectorStr is empty, v1.FormatLabelSelector will return "<none>", so we should not use it.
 			query.Set("labelSelector", v1.FormatLabelSelector(labels))
+		} else {
+			query.Del("labelSelector")
 		}
 	}
 	r.URL.RawQuery = query.Encode()
-- 
2.43.0


From 7ce19ae921329fb3b812a4355ff1a4eca8bf8d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:38 +0000
Subject: [PATCH 38/52] fix: understand searches for exactly one cluster

---
 page/page.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/page/page.go b/page/page.go
index 4835f2b..410c16b 100644
--- a/page/page.go
+++ b/page/page.go
@@ -291,6 +291,9 @@ func (p *Paginate) GetClusters() []string {
 		return nil
 	}
 	nsKey := "cluster"
+	if c, ok := s.MatchLabels[nsKey]; ok {
+		return []string{c}
+	}
 	for _, r := range s.MatchExpressions {
 		if r.Key == nsKey {
 			return r.Values
-- 
2.43.0


From 1655d36d15beef6fa355b0d9322d9fa45e983971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:54 +0000
Subject: [PATCH 39/52] fix: give every index expression a parser of its own

A broken JSON path yielded the value of any other index of the type.
---
 store/memory/memory.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/store/memory/memory.go b/store/memory/memory.go
index 210b445..0ccf904 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -357,8 +357,6 @@ func (m *memoryStore) buildResourceWithIndex(gvr store.GroupVersionResource, clu
 		Obj:   obj,
 	}
 	mobj := utils.Obj2JSONMap(obj)
-	jp := jsonpath.New("parser")
-	jp.AllowMissingKeys(true)
 	gotmpl := template.New("parser").Funcs(funMap)
 	for k, v := range m.indexConf[gvr] {
 		w := bytes.NewBuffer([]byte{})
@@ -374,8 +372,11 @@ func (m *memoryStore) buildResourceWithIndex(gvr store.GroupVersionResource, clu
 			s.Index[k] = v
 			continue
 		} else {
-			// json path
-			_ = jp.Parse(v)
+			// json path, a parser of its own:
+			// a broken expression must not yield the value of another one
+			jp := jsonpath.New("parser")
+			jp.AllowMissingKeys(true)
+			err = jp.Parse(v)
 			exec = jp
 		}
 		if err != nil {
-- 
2.43.0


From dc06930568ce74373629de125781c54c8ad9024a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 40/52] fix: plugin: find the selector in the arguments it
 rewrites

---
 cmd/ckube-plugin/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/ckube-plugin/main.go b/cmd/ckube-plugin/main.go
index afe35a8..a3ba862 100644
--- a/cmd/ckube-plugin/main.go
+++ b/cmd/ckube-plugin/main.go
@@ -44,7 +44,7 @@ func main() {
 		}
 		if a == "-l" || a == "--selector" {
 			if i+1 < len(os.Args) {
-				selectorPos = i + 1
+				selectorPos = len(args)
 			}
 		}
 	}
-- 
2.43.0


From ab5288ab6fe7e2dbd82a5bf0e2fc693e8ea5dde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:59 +0000
Subject: [PATCH 41/52] fix: reload the configuration also without a kube
 config, and keep using the default one

---
 cmd/cacheproxy/main.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cmd/cacheproxy/main.go b/cmd/cacheproxy/main.go
index e9c9fbb..d2286e4 100644
--- a/cmd/cacheproxy/main.go
+++ b/cmd/cacheproxy/main.go
@@ -190,6 +190,12 @@ func main() {
 	if debug {
 		log.SetDebug()
 	}
+	if kubeConfig == "" {
+		if _, err := os.Stat(defaultConfig); err == nil {
+			// stays what is used even if it is gone for a moment
+			kubeConfig = defaultConfig
+		}
+	}
 	cfg, clis, w, s, err := loadFromConfig(kubeConfig, configFile)
 	if err != nil {
 		log.Errorf("load from config file error: %v", err)
@@ -201,9 +207,7 @@ func main() {
 	_ = w.Start()
 	ser := server.NewMuxServer(listen, clis, s)
 	files := []string{configFile}
-	if kubeConfig == "" {
-		files = append(files, defaultConfig)
-	} else {
+	if kubeConfig != "" {
 		files = append(files, kubeConfig)
 	}
 	fixedWatcher, err := utils.NewFixedFileWatcher(files)
-- 
2.43.0


From a634b58fd6b03acbddeb3a190f23f18c8e866083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:59 +0000
Subject: [PATCH 42/52] fix: no crash when the cluster's configuration cannot
 be read a second time

---
 cmd/cacheproxy/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/cacheproxy/main.go b/cmd/cacheproxy/main.go
index d2286e4..90469c5 100644
--- a/cmd/cacheproxy/main.go
+++ b/cmd/cacheproxy/main.go
@@ -115,7 +115,7 @@ func loadFromConfig(kubeConfig, configFile string) (*common.Config, map[string]k
 				cfg.DefaultCluster = "default"
 			}
 			clusterConfigs[cfg.DefaultCluster] = *c
-			client, err := GetKubernetesClientWithFile(kubeConfig, "")
+			client, err := kubernetes.NewForConfig(c)
 			if err != nil {
 				return nil, nil, nil, nil, err
 			}
-- 
2.43.0


From 6a5495ae3fb8a09c741f6b93e140141f3ae3d309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:33 +0000
Subject: [PATCH 43/52] fix: no configuration change is missed while ckube
 starts

---
 cmd/cacheproxy/main.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/cmd/cacheproxy/main.go b/cmd/cacheproxy/main.go
index 90469c5..d2118dd 100644
--- a/cmd/cacheproxy/main.go
+++ b/cmd/cacheproxy/main.go
@@ -196,6 +196,17 @@ func main() {
 			kubeConfig = defaultConfig
 		}
 	}
+	files := []string{configFile}
+	if kubeConfig != "" {
+		files = append(files, kubeConfig)
+	}
+	// starts before the files are read, so that no change of them is missed
+	fixedWatcher, watchErr := utils.NewFixedFileWatcher(files)
+	if watchErr == nil {
+		if err := fixedWatcher.Start(); err != nil {
+			panic(fmt.Errorf("watcher start error: %v", err))
+		}
+	}
 	cfg, clis, w, s, err := loadFromConfig(kubeConfig, configFile)
 	if err != nil {
 		log.Errorf("load from config file error: %v", err)
@@ -206,17 +217,9 @@ func main() {
 	prommonitor.Up.WithLabelValues(prommonitor.CkubeComponent).Set(1)
 	_ = w.Start()
 	ser := server.NewMuxServer(listen, clis, s)
-	files := []string{configFile}
-	if kubeConfig != "" {
-		files = append(files, kubeConfig)
-	}
-	fixedWatcher, err := utils.NewFixedFileWatcher(files)
-	if err != nil {
-		log.Errorf("create watcher error: %v", err)
+	if watchErr != nil {
+		log.Errorf("create watcher error: %v", watchErr)
 	} else {
-		if err := fixedWatcher.Start(); err != nil {
-			panic(fmt.Errorf("watcher start error: %v", err))
-		}
 		defer fixedWatcher.Close()
 		go func() {
 			for e := range fixedWatcher.Events() {
-- 
2.43.0


From 4913bb581e799da158b263ec7efe2a7ce9c7deae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:59 +0000
Subject: [PATCH 44/52] fix: large integers are sorted by their exact value

---
 store/memory/memory.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/store/memory/memory.go b/store/memory/memory.go
index 0ccf904..3b63a71 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -257,6 +257,13 @@ func sortObjs(objs []store.Object, s string) ([]store.Object, error) {
 				}
 				r = vi < vj
 				equals = vi == vj
+				// integers which a float can not tell apart
+				if ii, err := strconv.ParseInt(vis, 10, 64); equals && err == nil {
+					if ij, err := strconv.ParseInt(vjs, 10, 64); err == nil {
+						r = ii < ij
+						equals = ii == ij
+					}
+				}
 			} else {
 				r = vis < vjs
 				equals = vis == vjs
-- 
2.43.0


From 8723469331ed18ad2f421287434de176b7f9de36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:15 +0000
Subject: [PATCH 45/52] fix: address of a cluster may have a path

---
 api/proxy.go       | 6 ++++--
 watcher/watcher.go | 7 ++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index 35f17b3..f17b17c 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -417,7 +417,7 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 	var reader io.ReadCloser
 	req, err := getRequest(r, cluster, timeout)
 	if err == nil {
-		reader, err = req.RequestURI(u).Stream(ctx)
+		reader, err = req.RequestURI(u).AbsPath(r.Request.URL.Path).Stream(ctx)
 	}
 	if err != nil {
 		if es, ok := err.(*errors.StatusError); ok {
@@ -451,6 +451,8 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 	}
 }
 
+// getRequest prepares a request to the cluster. Its path has to be set with AbsPath:
+// the address of the cluster may have a path of its own.
 func getRequest(r *ReqContext, cluster string, timeout time.Duration) (*rest.Request, error) {
 	// the client is shared by all requests, but the timeout is this request's own
 	rc := *r.ClusterClients[cluster].Discovery().RESTClient().(*rest.RESTClient)
@@ -514,7 +516,7 @@ func proxyPass(r *ReqContext, cluster string) interface{} {
 	var res []byte
 	req, err := getRequest(r, cluster, timeout)
 	if err == nil {
-		res, err = req.RequestURI(u).DoRaw(ctx)
+		res, err = req.RequestURI(u).AbsPath(r.Request.URL.Path).DoRaw(ctx)
 	}
 	if err != nil {
 		if es, ok := err.(*errors.StatusError); ok {
diff --git a/watcher/watcher.go b/watcher/watcher.go
index 715a37d..8d866ac 100644
--- a/watcher/watcher.go
+++ b/watcher/watcher.go
@@ -207,12 +207,13 @@ func (w *watcher) watchResources(r store.GroupVersionResource, gvk schema.GroupV
 		ctx, cancel := context.WithTimeout(w.ctx, time.Hour)
 		url := ""
 		if r.Group == "" {
-			url = fmt.Sprintf("/api/%s/%s?watch=true", r.Version, r.Resource)
+			url = fmt.Sprintf("/api/%s/%s", r.Version, r.Resource)
 		} else {
-			url = fmt.Sprintf("/apis/%s/%s/%s?watch=true", r.Group, r.Version, r.Resource)
+			url = fmt.Sprintf("/apis/%s/%s/%s", r.Group, r.Version, r.Resource)
 		}
 		first := true
-		ww, err := rt.Get().RequestURI(url).Timeout(time.Hour).Watch(ctx)
+		// relative to the address of the cluster, which may have a path of its own
+		ww, err := rt.Get().AbsPath(url).Param("watch", "true").Timeout(time.Hour).Watch(ctx)
 		if err != nil {
 			log.Errorf("cluster(%s): create watcher for %s error: %v", cluster, url, err)
 			time.Sleep(time.Second * 15)
-- 
2.43.0


From 6fa808008ba83dffdbab2e5e30b243adc3763806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:57 +0000
Subject: [PATCH 46/52] fix: escaped slashes of a path are passed on as they
 are

---
 api/proxy.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/api/proxy.go b/api/proxy.go
index f17b17c..10b4305 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"io"
 	"net/http"
+	"net/url"
 	"reflect"
 	"sort"
 	"strings"
@@ -451,6 +452,22 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 	}
 }
 
+// rawPathTransport sends a path the way the client wrote it, with its escaped slashes:
+// requests of client-go know the unescaped path only.
+type rawPathTransport struct {
+	http.RoundTripper
+	path    string
+	rawPath string
+}
+
+func (t *rawPathTransport) RoundTrip(req *http.Request) (*http.Response, error) {
+	if prefix := strings.TrimSuffix(req.URL.Path, t.path); prefix != req.URL.Path {
+		req = req.Clone(req.Context())
+		req.URL.RawPath = (&url.URL{Path: prefix}).EscapedPath() + t.rawPath
+	}
+	return t.RoundTripper.RoundTrip(req)
+}
+
 // getRequest prepares a request to the cluster. Its path has to be set with AbsPath:
 // the address of the cluster may have a path of its own.
 func getRequest(r *ReqContext, cluster string, timeout time.Duration) (*rest.Request, error) {
@@ -458,6 +475,13 @@ func getRequest(r *ReqContext, cluster string, timeout time.Duration) (*rest.Req
 	rc := *r.ClusterClients[cluster].Discovery().RESTClient().(*rest.RESTClient)
 	hc := *rc.Client
 	hc.Timeout = timeout
+	if u := r.Request.URL; u.RawPath != "" {
+		rt := hc.Transport
+		if rt == nil {
+			rt = http.DefaultTransport
+		}
+		hc.Transport = &rawPathTransport{rt, u.Path, u.RawPath}
+	}
 	rc.Client = &hc
 	c := &rc
 	var req *rest.Request
-- 
2.43.0


From a4f43ffc378aabff729753ec987d0e5d5c09f3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:46 +0000
Subject: [PATCH 47/52] fix: a template index without output is empty, not
 another index's value

---
 store/memory/memory.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/store/memory/memory.go b/store/memory/memory.go
index 3b63a71..5886e5c 100644
--- a/store/memory/memory.go
+++ b/store/memory/memory.go
@@ -364,7 +364,6 @@ func (m *memoryStore) buildResourceWithIndex(gvr store.GroupVersionResource, clu
 		Obj:   obj,
 	}
 	mobj := utils.Obj2JSONMap(obj)
-	gotmpl := template.New("parser").Funcs(funMap)
 	for k, v := range m.indexConf[gvr] {
 		w := bytes.NewBuffer([]byte{})
 		var exec interface {
@@ -372,8 +371,9 @@ func (m *memoryStore) buildResourceWithIndex(gvr store.GroupVersionResource, clu
 		}
 		var err error
 		if strings.Contains(v, "{{") {
-			// go template
-			exec, err = gotmpl.Parse(v)
+			// go template, a parser of its own:
+			// an expression without output must not yield that of another one
+			exec, err = template.New("parser").Funcs(funMap).Parse(v)
 		} else if !strings.Contains(v, "{") {
 			// raw string
 			s.Index[k] = v
-- 
2.43.0


From def939d8e4de52b283ee16e9f03335b6aaa59592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:58 +0000
Subject: [PATCH 48/52] fix: requests about something called watch are no
 watches

---
 api/proxy.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index 10b4305..9768741 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -394,10 +394,12 @@ func isWatchRequest(r *http.Request) bool {
 			return true
 		}
 	}
-	if strings.Contains(r.URL.Path, "/watch/") {
+	// /api/v1/watch/... and /apis/g/v1/watch/...; elsewhere it is a name
+	parts := strings.Split(r.URL.Path, "/")
+	if len(parts) > 4 && parts[1] == "api" && parts[3] == "watch" {
 		return true
 	}
-	return false
+	return len(parts) > 5 && parts[1] == "apis" && parts[4] == "watch"
 }
 
 func proxyPassWatch(r *ReqContext, cluster string) interface{} {
-- 
2.43.0


From 46f744f6f70ffbac63cd900ca8ab53571284e4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:58 +0000
Subject: [PATCH 49/52] fix: the timeout a client asks for reaches the API
 server

---
 api/proxy.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/api/proxy.go b/api/proxy.go
index 9768741..6a2c8c1 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -542,7 +542,8 @@ func proxyPass(r *ReqContext, cluster string) interface{} {
 	var res []byte
 	req, err := getRequest(r, cluster, timeout)
 	if err == nil {
-		res, err = req.RequestURI(u).AbsPath(r.Request.URL.Path).DoRaw(ctx)
+		// the query has the client's own timeout, if there is one
+		res, err = req.Timeout(0).RequestURI(u).AbsPath(r.Request.URL.Path).DoRaw(ctx)
 	}
 	if err != nil {
 		if es, ok := err.(*errors.StatusError); ok {
-- 
2.43.0


From 8b63e59b0057140063872e91accc9bc85a1c1d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:01 +0000
Subject: [PATCH 50/52] fix: the ReplicaSet of a pod need not be its first
 owner

---
 api/extend/deploy2service.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/api/extend/deploy2service.go b/api/extend/deploy2service.go
index 354c9c1..9f846a7 100644
--- a/api/extend/deploy2service.go
+++ b/api/extend/deploy2service.go
@@ -91,10 +91,12 @@ func Deploy2Service(r *api.ReqContext) interface{} {
 }
 
 func getDeploymentName(pod v12.Object) string {
-	if len(pod.GetOwnerReferences()) == 0 || pod.GetOwnerReferences()[0].Kind != "ReplicaSet" {
-		return ""
-	} else {
-		parts := strings.Split(pod.GetOwnerReferences()[0].Name, "-")
-		return strings.Join(parts[:len(parts)-1], "-")
+	// the ReplicaSet need not be the first owner
+	for _, owner := range pod.GetOwnerReferences() {
+		if owner.Kind == "ReplicaSet" {
+			parts := strings.Split(owner.Name, "-")
+			return strings.Join(parts[:len(parts)-1], "-")
+		}
 	}
+	return ""
 }
-- 
2.43.0


From e5036b20ed17b5d41692123dd9d000badbd25a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:11 +0000
Subject: [PATCH 51/52] fix: a list whose marker names a cluster shows that
 cluster's objects

---
 api/proxy.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/api/proxy.go b/api/proxy.go
index 6a2c8c1..3c99508 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -221,7 +221,8 @@ func Proxy(r *ReqContext) interface{} {
 	// If you want to get all clusters' resources,
 	// please call paginate.Clusters() before fetch resources
 	if cs := paginate.GetClusters(); len(cs) == 0 {
-		paginate.OnlyCluster(r.GetConfig().DefaultCluster)
+		// the cluster that the request names otherwise, or the default cluster
+		paginate.OnlyCluster(cluster)
 	}
 	log.Debugf("got paginate %v", paginate)
 
-- 
2.43.0


From 8682324f117fd9f0a38bfff0740d279e48564d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:10 +0000
Subject: [PATCH 52/52] fix: the errors and codes of API servers reach the
 client

---
 api/proxy.go | 47 +++++++++++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/api/proxy.go b/api/proxy.go
index 3c99508..bc2bb81 100644
--- a/api/proxy.go
+++ b/api/proxy.go
@@ -419,7 +419,7 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 	ctx, cancel := context.WithTimeout(r.Request.Context(), timeout)
 	defer cancel()
 	var reader io.ReadCloser
-	req, err := getRequest(r, cluster, timeout)
+	req, err := getRequest(r, cluster, timeout, new(int))
 	if err == nil {
 		reader, err = req.RequestURI(u).AbsPath(r.Request.URL.Path).Stream(ctx)
 	}
@@ -455,36 +455,41 @@ func proxyPassWatch(r *ReqContext, cluster string) interface{} {
 	}
 }
 
-// rawPathTransport sends a path the way the client wrote it, with its escaped slashes:
-// requests of client-go know the unescaped path only.
-type rawPathTransport struct {
+// passTransport sends a path the way the client wrote it, with its escaped slashes,
+// as requests of client-go know the unescaped path only, and notes the code of the
+// answer, which client-go keeps to itself.
+type passTransport struct {
 	http.RoundTripper
 	path    string
 	rawPath string
+	code    *int
 }
 
-func (t *rawPathTransport) RoundTrip(req *http.Request) (*http.Response, error) {
-	if prefix := strings.TrimSuffix(req.URL.Path, t.path); prefix != req.URL.Path {
+func (t *passTransport) RoundTrip(req *http.Request) (*http.Response, error) {
+	if prefix := strings.TrimSuffix(req.URL.Path, t.path); t.rawPath != "" && prefix != req.URL.Path {
 		req = req.Clone(req.Context())
 		req.URL.RawPath = (&url.URL{Path: prefix}).EscapedPath() + t.rawPath
 	}
-	return t.RoundTripper.RoundTrip(req)
+	resp, err := t.RoundTripper.RoundTrip(req)
+	if err == nil {
+		*t.code = resp.StatusCode
+	}
+	return resp, err
 }
 
 // getRequest prepares a request to the cluster. Its path has to be set with AbsPath:
-// the address of the cluster may have a path of its own.
-func getRequest(r *ReqContext, cluster string, timeout time.Duration) (*rest.Request, error) {
+// the address of the cluster may have a path of its own. The code of the answer is
+// stored in code.
+func getRequest(r *ReqContext, cluster string, timeout time.Duration, code *int) (*rest.Request, error) {
 	// the client is shared by all requests, but the timeout is this request's own
 	rc := *r.ClusterClients[cluster].Discovery().RESTClient().(*rest.RESTClient)
 	hc := *rc.Client
 	hc.Timeout = timeout
-	if u := r.Request.URL; u.RawPath != "" {
-		rt := hc.Transport
-		if rt == nil {
-			rt = http.DefaultTransport
-		}
-		hc.Transport = &rawPathTransport{rt, u.Path, u.RawPath}
+	rt := hc.Transport
+	if rt == nil {
+		rt = http.DefaultTransport
 	}
+	hc.Transport = &passTransport{rt, r.Request.URL.Path, r.Request.URL.RawPath, code}
 	rc.Client = &hc
 	c := &rc
 	var req *rest.Request
@@ -541,17 +546,23 @@ func proxyPass(r *ReqContext, cluster string) interface{} {
 	ctx, cancel := context.WithTimeout(context.Background(), timeout)
 	defer cancel()
 	var res []byte
-	req, err := getRequest(r, cluster, timeout)
+	var code int
+	req, err := getRequest(r, cluster, timeout, &code)
 	if err == nil {
 		// the query has the client's own timeout, if there is one
 		res, err = req.Timeout(0).RequestURI(u).AbsPath(r.Request.URL.Path).DoRaw(ctx)
 	}
 	if err != nil {
-		if es, ok := err.(*errors.StatusError); ok {
+		es, ok := err.(*errors.StatusError)
+		if !ok {
+			return err
+		}
+		// an error of the api server says more than client-go's summary of it
+		if !json.Valid(res) {
 			return errorProxy(r.Writer, es.ErrStatus)
 		}
-		return err
 	}
 	r.Writer.Header().Set("Content-Type", "application/json")
+	r.Writer.WriteHeader(code)
 	return res
 }
-- 
2.43.0

