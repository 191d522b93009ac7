# ---- assumed contracts on net/http, encoding/json, compress/gzip, html/template ----
fun uvget(int, string) string
fun hget(int, string) string
fun hdrof(iface) int
# headers set so far, by header map and name
ghost whdr map(int,map(string,string))
extern (*http.Request).ParseForm(r) (err)
  modifies r.Form, r.PostForm, r.MultipartForm
extern (url.Values).Get(v, key) (s)
  ensures s == uvget(ref(v), key)
extern (http.ResponseWriter).Header(w) (h)
  ensures h != nil && ref(h) == hdrof(w)
extern (http.Header).Set(h, key, value)
  modifies whdr[ref(h)]
  ensures whdr[ref(h)] == store(old(whdr[ref(h)]), key, value)
extern (http.Header).Get(h, key) (s)
  ensures s == hget(ref(h), key)
extern http.StatusText(code) (s)
# what was marshalled last, and the text it gave
ghost jsonval iface
fun jsontext(int) string
fun jsonerr(int) iface
ghost jsonn int
fun indented(string) string
extern json.Marshal(v) (b, err)
  maypanic
  modifies jsonval, jsonn
  ensures jsonval == v && jsonn == old(jsonn) + 1 && fresh(b) && err == jsonerr(old(jsonn)) && (err == nil ==> strof(b) == jsontext(old(jsonn)))
ghost buftext map(int,string)
extern json.Indent(dst, src, prefix, indent) (err)
  modifies buftext[ref(dst)]
  ensures buftext[ref(dst)] == indented(strof(src))
extern (*bytes.Buffer).WriteTo(b, w) (n, err)
  modifies wbody[w], wcode[w]
  ensures wbody[w] == cat(old(wbody[w]), old(buftext[ref(b)])) && wcode[w] == wsent(w)
extern (*log.Logger).Printf(l, format, args)
extern fmt.Fprintln(w, a) (n, err)
  modifies wbody[w], wcode[w]
  ensures wcode[w] == wsent(w)
