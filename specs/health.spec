# ---- package healthserver: C20, C12 ----
pred answers(w, status) = ite(status == "",
     wcode[w] == 200 && wbody[w] == "OK",
     wcode[w] == 503 && (wbody[w] == cat(status, "\n") || wbody[w] == status))

func healthserver.init()
  prop C20
  mode pkginit
  modifies_all
  ensures[C20] initial: healthStatus == "" && readyStatus == "not ready"
  ensures[C20] routes: wroute["/healthz"] == fnref(healthzHandler) && wroute["/readiness"] == fnref(readinessHandler)

func healthserver.healthzHandler(w, r)
  prop C20 C12
  requires w != nil && wcode[w] == 0 && wbody[w] == ""
  requires glockstate(mutex) == 0
  modifies wbody[w], wcode[w]
  ensures[C20] answer: answers(w, healthStatus)
  ensures[C12] released: glockstate(mutex) == 0
  ensures[C12] once: gacquired(mutex) == old(gacquired(mutex)) + 1

func healthserver.readinessHandler(w, r)
  prop C20 C12
  requires w != nil && wcode[w] == 0 && wbody[w] == ""
  requires glockstate(mutex) == 0
  modifies wbody[w], wcode[w]
  ensures[C20] answer: answers(w, readyStatus)
  ensures[C12] released: glockstate(mutex) == 0
  ensures[C12] once: gacquired(mutex) == old(gacquired(mutex)) + 1

func healthserver.SetHealthy()
  prop C20 C12
  requires glockstate(mutex) == 0
  modifies healthStatus
  ensures[C20] set: healthStatus == ""
  ensures[C12] released: glockstate(mutex) == 0
func healthserver.SetReady()
  prop C20 C12
  requires glockstate(mutex) == 0
  modifies readyStatus
  ensures[C20] set: readyStatus == ""
  ensures[C12] released: glockstate(mutex) == 0
func healthserver.SetNotHealthy(status)
  prop C20 C12
  requires glockstate(mutex) == 0
  modifies healthStatus
  panics status == "" || status == "OK"
  panic_ensures[C20] refused: healthStatus == old(healthStatus)
  panic_ensures[C12] released: glockstate(mutex) == 0
  ensures[C20] set: healthStatus == status
  ensures[C12] released: glockstate(mutex) == 0
func healthserver.SetNotReady(status)
  prop C20 C12
  requires glockstate(mutex) == 0
  modifies readyStatus
  panics status == "" || status == "OK"
  panic_ensures[C20] refused: readyStatus == old(readyStatus)
  panic_ensures[C12] released: glockstate(mutex) == 0
  ensures[C20] set: readyStatus == status
  ensures[C12] released: glockstate(mutex) == 0

guard[C12] global healthserver.mutex: healthserver.healthStatus healthserver.readyStatus
