/* natives.c: functions and methods in C, as an extension defines them, for checks/c29.py. Included by pnrun.c.
 *
 * cfun(tag, sig, n)            a function of n parameters with this signature (nil: none); it gives (tag, args ...)
 * cdef(name, tag, sig, n)      the same as a method of Lobby, that is, as a function NAME
 * cmeth(class, name, tag, sig, n)   as a method of a class; it gives (tag, self, args ...)
 * cmeta(class, name, tag, sig, n)   as a class method
 * cglobal(name, v)             a global
 * ccall(f, self, list)         calls f from C with this self and these arguments
 * csend(o, name, list)         sends a message from C
 * cget(o, name), cset(o, name, v)   fields
 * cbuild(n, how)               a list, table, string or bytes made of n new values
 * ceach(list, f)               calls f with every element, holding what it makes on the C stack only
 * cself()                      self of the function
 * cobj(class, list), cclass(parent, names)   an object, a class made in C
 */
#define ARGS0
#define ARGS1 , PN a1
#define ARGS2 ARGS1, PN a2
#define ARGS3 ARGS2, PN a3
#define ARGS4 ARGS3, PN a4
#define ARGS5 ARGS4, PN a5
#define ARGS6 ARGS5, PN a6
#define ARGS7 ARGS6, PN a7
#define ARGS8 ARGS7, PN a8
#define ARGS9 ARGS8, PN a9
#define ARGS10 ARGS9, PN a10
#define ARGS11 ARGS10, PN a11
#define ARGS12 ARGS11, PN a12
#define ARGS13 ARGS12, PN a13
#define ARGS14 ARGS13, PN a14
#define VALS0
#define VALS1 , a1
#define VALS2 VALS1, a2
#define VALS3 VALS2, a3
#define VALS4 VALS3, a4
#define VALS5 VALS4, a5
#define VALS6 VALS5, a6
#define VALS7 VALS6, a7
#define VALS8 VALS7, a8
#define VALS9 VALS8, a9
#define VALS10 VALS9, a10
#define VALS11 VALS10, a11
#define VALS12 VALS11, a12
#define VALS13 VALS12, a13
#define VALS14 VALS13, a14
static PN nat_result(Potion *P, PN cl, PN self, int n, PN *a) {
  int i, m = PN_CLOSURE(cl)->data[1] != PN_NIL;
  PN t = PN_TUP0();
  t = PN_PUSH(t, PN_CLOSURE(cl)->data[0]);
  if (m) t = PN_PUSH(t, self);
  for (i = 0; i < n; i++) t = PN_PUSH(t, a[i]);
  return t;
}
#define NAT(N) static PN nat##N(Potion *P, PN cl, PN self ARGS##N) { PN a[] = {PN_NIL VALS##N}; return nat_result(P, cl, self, N, a + 1); }
NAT(0) NAT(1) NAT(2) NAT(3) NAT(4) NAT(5) NAT(6) NAT(7) NAT(8) NAT(9) NAT(10) NAT(11) NAT(12) NAT(13) NAT(14)
static PN_F nats[] = {(PN_F)nat0, (PN_F)nat1, (PN_F)nat2, (PN_F)nat3, (PN_F)nat4, (PN_F)nat5, (PN_F)nat6, (PN_F)nat7, (PN_F)nat8,
                      (PN_F)nat9, (PN_F)nat10, (PN_F)nat11, (PN_F)nat12, (PN_F)nat13, (PN_F)nat14};

static PN nat_make(Potion *P, PN tag, PN sig, PN n, PN meth) {
  char text[512];
  PN s = PN_NIL, c;
  if (sig != PN_NIL) { /* the string may move while the signature is read: potion_sig wants a C string */
    strncpy(text, PN_STR_PTR(sig), sizeof text - 1);
    text[sizeof text - 1] = 0;
    s = potion_sig(P, text);
  }
  c = potion_closure_new(P, nats[PN_INT(n)], s, 2);
  PN_CLOSURE(c)->data[0] = tag;
  PN_CLOSURE(c)->data[1] = meth;
  PN_TOUCH(c);
  return c;
}
static PN nat_fun(Potion *P, PN cl, PN self, PN tag, PN sig, PN n) { return nat_make(P, tag, sig, n, PN_NIL); }
static PN nat_def(Potion *P, PN cl, PN self, PN name, PN tag, PN sig, PN n) {
  potion_send(P->lobby, PN_def, name, nat_make(P, tag, sig, n, PN_NIL));
  return PN_TRUE;
}
static PN nat_meth(Potion *P, PN cl, PN self, PN k, PN name, PN tag, PN sig, PN n) {
  potion_send(k, PN_def, name, nat_make(P, tag, sig, n, PN_TRUE));
  return PN_TRUE;
}
static PN nat_meta(Potion *P, PN cl, PN self, PN k, PN name, PN tag, PN sig, PN n) {
  potion_send(((struct PNVtable *)k)->meta, PN_def, name, nat_make(P, tag, sig, n, PN_TRUE));
  return PN_TRUE;
}
static PN nat_global(Potion *P, PN cl, PN self, PN name, PN v) { potion_define_global(P, name, v); return v; }
#define NATARG(i) (n > i ? PN_TUPLE_AT(list, i) : PN_NIL)
static PN nat_call(Potion *P, PN cl, PN self, PN f, PN s, PN list) {
  long i, n = PN_TUPLE_LEN(list);
  PN v[16];
  v[0] = s;
  for (i = 0; i < n && i < 15; i++) v[i + 1] = PN_TUPLE_AT(list, i);
  return potion_call(P, f, n + 1, v);
}
static PN nat_send(Potion *P, PN cl, PN self, PN o, PN name, PN list) {
  long n = PN_TUPLE_LEN(list);
  switch (n) {
    case 0: return potion_send(o, name);
    case 1: return potion_send(o, name, NATARG(0));
    case 2: return potion_send(o, name, NATARG(0), NATARG(1));
    case 3: return potion_send(o, name, NATARG(0), NATARG(1), NATARG(2));
    case 4: return potion_send(o, name, NATARG(0), NATARG(1), NATARG(2), NATARG(3));
    case 5: return potion_send(o, name, NATARG(0), NATARG(1), NATARG(2), NATARG(3), NATARG(4));
    default: return potion_send(o, name, NATARG(0), NATARG(1), NATARG(2), NATARG(3), NATARG(4), NATARG(5));
  }
}
static PN nat_get(Potion *P, PN cl, PN self, PN o, PN name) { return potion_obj_get(P, PN_NIL, o, name); }
static PN nat_set(Potion *P, PN cl, PN self, PN o, PN name, PN v) { return potion_obj_set(P, PN_NIL, o, name, v); }
static PN nat_build(Potion *P, PN cl, PN self, PN num, PN how) {
  long i, n = PN_INT(num);
  char b[32];
  switch (*PN_STR_PTR(how)) {
    case 'l': { PN t = PN_TUP0(); for (i = 0; i < n; i++) { sprintf(b, "v%ld", i); t = PN_PUSH(t, potion_str(P, b)); } return t; }
    case 's': { PN t = potion_tuple_with_size(P, n); /* as potion_vm_class does: all set before the next one is made */
                for (i = 0; i < n; i++) PN_TUPLE_AT(t, i) = PN_NIL;
                for (i = 0; i < n; i++) { PN s; sprintf(b, "v%ld", i); s = potion_str(P, b); PN_TUPLE_AT(t, i) = s; PN_TOUCH(t); } return t; }
    case 't': { PN t = potion_table_empty(P); for (i = 0; i < n; i++) { PN k; sprintf(b, "k%ld", i); k = potion_str(P, b); sprintf(b, "v%ld", i);
                t = potion_table_put(P, PN_NIL, t, k, potion_str(P, b)); } return t; }
    case 'a': { PN s = PN_STR0; for (i = 0; i < n; i++) { sprintf(b, "%ld,", i); s = potion_str_add(P, PN_NIL, s, potion_str(P, b)); } return s; }
    case 'b': { PN s = potion_byte_str(P, ""); for (i = 0; i < n; i++) pn_printf(P, s, "%ld,", i); return potion_bytes_string(P, PN_NIL, s); }
    case 'f': { PN s = PN_STR0; for (i = 0; i < n; i++) s = potion_str_format(P, "%s%ld,", PN_STR_PTR(s), i); return s; }
    case 'd': { PN t = PN_TUP0(); for (i = 0; i < n; i++) { PN d = potion_double(P, i + 0.5); t = PN_PUSH(t, d); } return t; }
    case 'n': { PN t = PN_NIL; for (i = 0; i < n; i++) { sprintf(b, "v%ld", i); t = potion_tuple_new(P, t); t = PN_PUSH(t, potion_str(P, b)); } return t; }
  }
  return PN_NIL;
}
static PN nat_each(Potion *P, PN cl, PN self, PN list, PN f) {
  PN first = PN_NIL, last = PN_NIL, all = PN_TUP0();
  long i;
  for (i = 0; i < (long)PN_TUPLE_LEN(list); i++) {
    PN v = PN_CLOSURE(f)->method(P, f, P->lobby, PN_TUPLE_AT(list, i), PN_NUM(i));
    if (i == 0) first = v;
    last = v;
    all = PN_PUSH(all, v);
  }
  PN r = PN_TUP0();
  r = PN_PUSH(r, first); r = PN_PUSH(r, last); return PN_PUSH(r, all);
}
static PN nat_obj(Potion *P, PN cl, PN self, PN k, PN list) {
  PN o = potion_object_new(P, PN_NIL, k), c = ((struct PNVtable *)k)->ctor;
  PN v[16];
  long i, n = PN_TUPLE_LEN(list);
  v[0] = o;
  for (i = 0; i < n && i < 15; i++) v[i + 1] = PN_TUPLE_AT(list, i);
  potion_call(P, c, n + 1, v);
  return o;
}
static PN nat_ctor(Potion *P, PN cl, PN self ARGS3) {
  potion_obj_set(P, PN_NIL, self, PN_CLOSURE(cl)->data[0], a1);
  return self;
}
static PN nat_class(Potion *P, PN cl, PN self, PN parent, PN names) {
  PN c = potion_closure_new(P, (PN_F)nat_ctor, potion_sig(P, "v=o"), 1);
  PN_CLOSURE(c)->data[0] = PN_TUPLE_AT(names, 0);
  PN_TOUCH(c);
  return potion_class(P, c, parent, names);
}
static void init_natives(Potion *P) {
  potion_method(P->lobby, "cfun", nat_fun, "tag=o,sig=o,n=N");
  potion_method(P->lobby, "cdef", nat_def, "name=S,tag=o,sig=o,n=N");
  potion_method(P->lobby, "cmeth", nat_meth, "k=o,name=S,tag=o,sig=o,n=N");
  potion_method(P->lobby, "cmeta", nat_meta, "k=o,name=S,tag=o,sig=o,n=N");
  potion_method(P->lobby, "cglobal", nat_global, "name=S,v=o");
  potion_method(P->lobby, "ccall", nat_call, "f=o,s=o,list=o");
  potion_method(P->lobby, "csend", nat_send, "o=o,name=S,list=o");
  potion_method(P->lobby, "cget", nat_get, "o=o,name=S");
  potion_method(P->lobby, "cset", nat_set, "o=o,name=S,v=o");
  potion_method(P->lobby, "cbuild", nat_build, "n=N,how=S");
  potion_method(P->lobby, "ceach", nat_each, "list=o,f=o");
  potion_method(P->lobby, "cobj", nat_obj, "k=o,list=o");
  potion_method(P->lobby, "cclass", nat_class, "parent=o,names=o");
}
