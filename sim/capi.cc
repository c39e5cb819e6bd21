// C API client used by the simulator: plays an application that embeds the
// interpreter.  It performs the operations of the run's client list one after
// another and prints what each of them returned.  It touches nothing but the
// public API and, like any application may, keeps values in static variables
// that it has registered with the collector.
#include "sim.h"
#ifdef CAPI_STUB
int sim_capi_main(int) { return 77; }
#else
#include "pscm_api.h"
#include "gc.h"
#include "throw.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args);

enum { NSLOT = 16 };
static SCM *slot[NSLOT];
static int slot_of(const char *s) { return atoi(s) % NSLOT; }

static void show(SCM *v) { print_ast(v, true); }

static void result(size_t i, SCM *v) {
  if (v) {
    printf("\nop%zu => ", i);
    show(v);
    printf("\n");
  } else {
    const char *k = pscm_get_last_error_key();
    const char *m = pscm_get_last_error_message();
    if (k && !strcmp(k, "host-marker")) k = "-none-";
    const char *b = m ? strstr(m, "boom") : nullptr; // texts of the program's own have to be found in the message
    printf("\nop%zu !! %s%s%s%.*s\n", i, k ? k : "-", m && *m ? " m" : "", b ? " " : "", b ? 4 + (int)strspn(b + 4, "0123456789") : 0, b ? b : "");
  }
}

// ---- procedures the application offers to Scheme programs
static SCM *number(int n) { char b[32]; snprintf(b, sizeof b, "%d", n); return pscm_parse(b); }
static SCM *failed() { return pscm_parse("failed"); }
static SCM *host_eval(SCM *text) {
  if (!is_str(text)) return failed();
  SCM_String *s = cast<SCM_String>(text);
  // not freed: a continuation can make the evaluation return more than once
  SCM *v = pscm_eval_string(strndup(s->data, s->len));
  return v ? v : failed();
}
static SCM *host_call(SCM *proc) {
  SCM *v = pscm_eval(scm_list1(proc));
  return v ? v : failed();
}
struct Thunk { SCM *proc; };
static SCM *host_catch(SCM *tag, SCM *proc) {
  Thunk t = {proc};
  return scm_c_catch(tag, [](void *d) -> SCM * { return apply_procedure(pscm_get_global_env(), cast<SCM_Procedure>(((Thunk *)d)->proc), nullptr); }, &t,
                     [](void *, SCM *key, SCM *args) -> SCM * { return scm_list2(pscm_parse("caught-by-host"), key); }, nullptr);
}
static SCM *host_throw(SCM *key, SCM *v) { return pscm_ithrow(key, scm_list1(v), 1); }
static SCM *host_put(SCM *i, SCM *v) { slot[(unsigned long)i->value % NSLOT] = v; return v; }
static SCM *host_get(SCM *i) {
  SCM *v = slot[(unsigned long)i->value % NSLOT];
  return v ? v : scm_bool_false();
}
static SCM *host_opt(SCM_List *args) { // one required, the rest optional
  int n = 0;
  for (SCM_List *l = args; l; l = l->next) n++;
  return scm_list2(args ? args->data : scm_bool_false(), number(n));
}

typedef SCM *(*gsubr)(void);

// ---- operations
static const char *after_line(const char *s) {
  const char *n = strchr(s, '\n');
  return n ? n + 1 : s + strlen(s);
}

static void perform(size_t i, const std::string &op, const char *arg) {
  // an error of before, to tell it from the one this operation has to leave
  if (op == "file" || op == "pfile" || op == "parse" || i % 4 == 0) pscm_eval_string("(throw 'host-marker)");
  if (op == "eval") result(i, pscm_eval_string(arg));
  else if (op == "ceval") { // the Guile 1.8 entry point: errors go to the catch around it
    SCM *v = scm_c_catch(scm_bool_true(), [](void *d) -> SCM * { return scm_c_eval_string((const char *)d); }, (void *)arg,
                         [](void *, SCM *key, SCM *) -> SCM * { return scm_list2(pscm_parse("caught-by-host"), key); }, nullptr);
    result(i, v);
  } else if (op == "any") { pscm_eval_string(arg); printf("\nop%zu back\n", i); }
  else if (op == "storm") { // "count\ntext": the same failing call again and again
    int n = atoi(arg), null = 0;
    for (int k = 0; k < n; k++) null += !pscm_eval_string(after_line(arg));
    printf("\nop%zu storm %d\n", i, null);
  }
  else if (op == "file") result(i, pscm_eval_file(arg));
  else if (op == "pfile") {
    SCM_List *l = pscm_parse_file(arg);
    if (!l) { result(i, nullptr); return; }
    int n = 0;
    for (; l; l = l->next, n++) result(i, pscm_eval(l->data));
    printf("\nop%zu forms %d\n", i, n);
  } else if (op == "parse") {
    SCM *v = pscm_parse(after_line(arg));
    if (v) { slot[slot_of(arg)] = v; printf("\nop%zu parsed\n", i); }
    else result(i, nullptr);
  } else if (op == "run") {
    result(i, slot[slot_of(arg)] ? pscm_eval(slot[slot_of(arg)]) : nullptr);
  } else if (op == "keep") {
    SCM *v = pscm_eval_string(after_line(arg));
    if (v) slot[slot_of(arg)] = v;
    result(i, v);
  } else if (op == "show") result(i, slot[slot_of(arg)] ? slot[slot_of(arg)] : scm_bool_false());
  else if (op == "def") { pscm_c_define(after_line(arg), slot[slot_of(arg)] ? slot[slot_of(arg)] : scm_bool_false()); printf("\nop%zu defined\n", i); }
  else if (op == "get") {
    SCM *v = scm_c_catch(scm_bool_true(), [](void *d) -> SCM * { return pscm_variable_ref(pscm_c_lookup((const char *)d)); }, (void *)arg,
                         [](void *, SCM *, SCM *) -> SCM * { return pscm_parse("unbound"); }, nullptr);
    result(i, v);
  } else if (op == "module") { // "slot\nname"
    SCM *m = pscm_c_resolve_module(after_line(arg));
    slot[slot_of(arg)] = m;
    printf("\nop%zu module\n", i);
  } else if (op == "enter") { // evaluate in the module of a slot, whatever happens there come back
    SCM *m = slot[slot_of(arg)];
    SCM *old = pscm_c_current_module();
    pscm_c_set_current_module(m);
    SCM *v = pscm_eval_string(after_line(arg));
    bool same = pscm_c_current_module() == m;
    pscm_c_set_current_module(old);
    result(i, v);
    if (!same) printf("\nop%zu current module changed\n", i);
  } else if (op == "mdef") { // "slot\nname\ntext"
    const char *a = after_line(arg), *b = after_line(a);
    std::string name(a, b - a - 1);
    SCM *v = pscm_eval_string(b);
    if (v) pscm_c_module_define(slot[slot_of(arg)], name.c_str(), v);
    result(i, v);
  } else if (op == "mget") {
    struct A { SCM *m; const char *n; } a = {slot[slot_of(arg)], after_line(arg)};
    SCM *v = scm_c_catch(scm_bool_true(), [](void *d) -> SCM * {
        SCM *var = pscm_c_module_lookup(((A *)d)->m, ((A *)d)->n);
        return var ? pscm_variable_ref(var) : nullptr; }, &a,
        [](void *, SCM *, SCM *) -> SCM * { return pscm_parse("unbound"); }, nullptr);
    result(i, v ? v : pscm_parse("unbound"));
  } else printf("\nop%zu unknown\n", i);
}

// operations are performed from frames at various depths of the application's
// stack; its own variables have to survive all of them
static __attribute__((noinline)) size_t descend(int depth, size_t i);
static size_t run_ops(size_t i, int depth) {
  while (i < SIM_CLIENT->size()) {
    const std::string &s = (*SIM_CLIENT)[i];
    size_t n = s.find('\n');
    std::string op = s.substr(0, n);
    const char *arg = n == std::string::npos ? "" : s.c_str() + n + 1;
    if (op == "depth") {
      int d = atoi(arg);
      if (d > depth) { i = descend(depth + 1, i); continue; }
      if (d < depth) return i;
      i++;
      continue;
    }
    perform(i, op, arg);
    i++;
  }
  return i;
}
static __attribute__((noinline)) size_t descend(int depth, size_t i) {
  volatile unsigned char canary[200];
  for (unsigned k = 0; k < sizeof canary; k++) canary[k] = (unsigned char)(depth * 31 + k);
  i = run_ops(i, depth);
  for (unsigned k = 0; k < sizeof canary; k++)
    if (canary[k] != (unsigned char)(depth * 31 + k)) { printf("stack of the application damaged at depth %d\n", depth); break; }
  return i;
}

static __attribute__((noinline)) void set_up() {
  pscm_init();
  for (auto &s : slot) gc_register_root(&s, "client slot");
  pscm_c_define_gsubr("host-eval", 1, 0, 0, (gsubr)host_eval);
  pscm_c_define_gsubr("host-call", 1, 0, 0, (gsubr)host_call);
  pscm_c_define_gsubr("host-catch", 2, 0, 0, (gsubr)host_catch);
  pscm_c_define_gsubr("host-throw", 2, 0, 0, (gsubr)host_throw);
  pscm_c_define_gsubr("host-put", 2, 0, 0, (gsubr)host_put);
  pscm_c_define_gsubr("host-get", 1, 0, 0, (gsubr)host_get);
  pscm_c_define_gsubr("host-opt", 1, 1, 0, (gsubr)host_opt);
}

// the application may start the interpreter from a function deeper than those
// that use it later
static __attribute__((noinline)) int set_up_from(int depth) {
  volatile unsigned char frame[200];
  frame[depth % 200] = (unsigned char)depth;
  if (depth == 0) set_up(); else set_up_from(depth - 1);
  return frame[depth % 200];
}

int sim_capi_main(int mode) {
  (void)mode;
  set_up_from((int)sim_knob("init_depth", 0));
  if (SIM_CLIENT->size()) run_ops(0, 0);
  return 0;
}
#endif
