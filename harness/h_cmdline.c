/* Monitors of misc/cmdline.[hc]: C33, C34. */
#include "mon.h"
#include "cmdline.h"

#define MAX_OPTS    12
#define MAX_ARGS    14
#define MAX_EVENTS  700000
#define MAX_STR     3000

/* ---------------------------------------------------------------------- */
/* A command line with its option table, each piece a block of exact size. */

struct cmd {
    CMDLINE_OPTION* opts;       /* n_opts + 1 records */
    int n_opts;
    char** argv;
    int argc;
    u64 hash;                   /* of all the bytes of all of the above */
};

static u64
cmd_hash(const struct cmd* c)
{
    u64 h = (u64) c->argc * 31 + (u64) c->n_opts;
    int i;
    for(i = 0; i < c->argc; i++)
        h = h3(h, (u64) (uintptr_t) c->argv[i], hbytes(c->argv[i], strlen(c->argv[i]) + 1));
    for(i = 0; i < c->n_opts; i++) {
        const CMDLINE_OPTION* o = &c->opts[i];
        h = h4(h, (u64) (unsigned char) o->shortname, (u64) (unsigned) o->id, o->flags);
        h = h2(h, (u64) (uintptr_t) o->longname);
        if(o->longname != NULL)
            h = h2(h, hbytes(o->longname, strlen(o->longname) + 1));
    }
    return h;
}

/* As cmd_hash(), with no addresses. */
static u64
cmd_ident(const struct cmd* c)
{
    u64 h = (u64) c->argc * 31 + (u64) c->n_opts;
    int i;
    for(i = 1; i < c->argc; i++)
        h = h2(h, hbytes(c->argv[i], strlen(c->argv[i]) + 1));
    for(i = 0; i < c->n_opts; i++) {
        const CMDLINE_OPTION* o = &c->opts[i];
        h = h4(h, (u64) (unsigned char) o->shortname, 0, o->flags);
        if(o->longname != NULL)
            h = h2(h, hbytes(o->longname, strlen(o->longname) + 1));
    }
    return h;
}

/* ---------------------------------------------------------------------- */
/* Independent parser: what the documentation prescribes. */

struct event {
    int id;
    int kind;               /* 0: arg is NULL, 1: exactly this pointer, 2: this text, 3: this text, may be cut */
    const char* ptr;        /* kind 2, 3: of len bytes, not terminated */
    size_t len;
    char two[2];
};

static void
ev_add(struct event* ev, int* n, int id, int kind, const char* s, size_t len)
{
    struct event* e = &ev[*n];
    if(*n >= MAX_EVENTS)
        mon_die("too many events");
    e->id = id;
    e->kind = kind;
    e->ptr = s;
    e->len = len;
    (*n)++;
}

/* "-x" within a group. */
static void
ev_add_two(struct event* ev, int* n, int id, char x)
{
    ev_add(ev, n, id, 2, NULL, 2);
    ev[*n - 1].two[0] = '-';
    ev[*n - 1].two[1] = x;
}

static const char*
ev_text(const struct event* e)
{
    return (e->ptr != NULL) ? e->ptr : e->two;
}

static int
ev_text_is(const struct event* e, const char* arg)
{
    return (strlen(arg) == e->len && memcmp(arg, ev_text(e), e->len) == 0);
}

static int
starts(const char* s, const char* prefix)
{
    while(*prefix != '\0') {
        if(*s++ != *prefix++)
            return 0;
    }
    return 1;
}

static int
ref_parse(const struct cmd* c, struct event* ev)
{
    int n = 0, i, k, only_positional = 0;

    for(i = 1; i < c->argc; i++) {
        const char* a = c->argv[i];
        size_t alen = strlen(a);
        int handled = 0;

        if(only_positional || (a[0] == '-' && a[1] == '\0')) {
            ev_add(ev, &n, CMDLINE_OPTID_NONE, 1, a, 0);
            continue;
        }
        if(a[0] == '-' && a[1] == '-' && a[2] == '\0') {
            only_positional = 1;
            continue;
        }
        for(k = 0; k < c->n_opts && !handled; k++) {
            const CMDLINE_OPTION* o = &c->opts[k];
            if(o->flags & CMDLINE_OPTFLAG_COMPILERLIKE) {
                size_t len = strlen(o->longname);
                if(!starts(a, o->longname))
                    continue;
                handled = 1;
                if(alen > len) {
                    ev_add(ev, &n, o->id, 1, a + len, 0);
                } else if(i + 1 < c->argc) {
                    i++;
                    ev_add(ev, &n, o->id, 1, c->argv[i], 0);
                } else {
                    ev_add(ev, &n, CMDLINE_OPTID_MISSINGARG, 2, o->longname, len);
                }
                EV("compiler-like options");
            } else if(starts(a, "--")) {
                size_t len;
                if(o->longname == NULL)
                    continue;
                len = strlen(o->longname);
                if(!starts(a + 2, o->longname))
                    continue;
                if(a[2 + len] == '\0') {
                    handled = 1;
                    if(o->flags & CMDLINE_OPTFLAG_REQUIREDARG)
                        ev_add(ev, &n, CMDLINE_OPTID_MISSINGARG, 2, a, alen);
                    else
                        ev_add(ev, &n, o->id, 0, NULL, 0);
                    EV("long options without argument");
                } else if(a[2 + len] == '=') {
                    handled = 1;
                    if(o->flags & (CMDLINE_OPTFLAG_REQUIREDARG | CMDLINE_OPTFLAG_OPTIONALARG)) {
                        ev_add(ev, &n, o->id, 1, a + 2 + len + 1, 0);
                        EV("long options with argument");
                    } else {
                        ev_add(ev, &n, CMDLINE_OPTID_BOGUSARG, 3, a, 2 + len);
                        EV("bogus arguments");
                    }
                }
            } else if(a[0] == '-' && o->shortname != '\0' && a[1] == o->shortname) {
                handled = 1;
                if(o->flags & CMDLINE_OPTFLAG_REQUIREDARG) {
                    if(alen > 2) {
                        ev_add(ev, &n, o->id, 1, a + 2, 0);
                    } else if(i + 1 < c->argc) {
                        i++;
                        ev_add(ev, &n, o->id, 1, c->argv[i], 0);
                    } else {
                        ev_add(ev, &n, CMDLINE_OPTID_MISSINGARG, 2, a, alen);
                    }
                    EV("short options with argument");
                } else {
                    size_t j;
                    ev_add(ev, &n, o->id, 0, NULL, 0);
                    for(j = 2; j < alen; j++) {
                        int m, found = -1;
                        for(m = 0; m < c->n_opts && found < 0; m++) {
                            if(c->opts[m].shortname == a[j] && !(c->opts[m].flags & CMDLINE_OPTFLAG_COMPILERLIKE))
                                found = m;
                        }
                        if(found < 0)
                            ev_add_two(ev, &n, CMDLINE_OPTID_UNKNOWN, a[j]);
                        else if(c->opts[found].flags & CMDLINE_OPTFLAG_REQUIREDARG)
                            ev_add_two(ev, &n, CMDLINE_OPTID_MISSINGARG, a[j]);
                        else
                            ev_add(ev, &n, c->opts[found].id, 0, NULL, 0);
                        EV("options within groups");
                    }
                }
            }
        }
        if(handled)
            continue;
        if(a[0] != '-') {
            ev_add(ev, &n, CMDLINE_OPTID_NONE, 1, a, 0);
            EV("positional arguments");
        } else if(a[1] == '-') {
            const char* eq = strchr(a, '=');
            ev_add(ev, &n, CMDLINE_OPTID_UNKNOWN, eq != NULL ? 3 : 2, a, eq != NULL ? (size_t) (eq - a) : alen);
            EV("unknown options");
        } else {
            ev_add(ev, &n, CMDLINE_OPTID_UNKNOWN, 2, a, alen);
            EV("unknown options");
        }
    }
    return n;
}

/* ---------------------------------------------------------------------- */
/* Workload. */

static char*
mk_str(const char* s)
{
    return xdup(s, strlen(s) + 1);
}

static char
mk_char(void)
{
    static const char set[] = "aabbcdefgxyzDIlAZ09_+.:/,\x01\x7f\x80\xfe ";
    return set[rn(sizeof(set) - 1)];
}

static void
mk_name(char* buf, int* pn, int maxlen)
{
    int len = (maxlen > 100) ? maxlen : (int) rr(1, (u64) maxlen), i;
    for(i = 0; i < len; i++)
        buf[(*pn)++] = (rn(3) == 0) ? mk_char() : (rn(6) == 0) ? '-' : "abc"[rn(3)];
    buf[*pn] = '\0';
}

/* The most characters of a name: mostly few, and the lengths around which
 * narrow types and buffers end. */
static int
name_len(int few, int more)
{
    static const int ends[] = { 127, 128, 129, 255, 256, 257, 260, 511, 600 };
    if(rn(8) != 0)
        return few;
    return (rn(4) == 0) ? ends[rn(9)] : more;
}

static int lim_opts = MAX_OPTS, lim_args = MAX_ARGS, lengthen;

static void
mk_options(struct cmd* c)
{
    int i, n = (int) rn((u64) lim_opts);
    int style = (int) rn(4);
    char buf[MAX_STR];

    c->n_opts = n;
    c->opts = xmalloc(sizeof(CMDLINE_OPTION) * (size_t) (n + 1));
    memset(c->opts, 0, sizeof(CMDLINE_OPTION) * (size_t) (n + 1));
    for(i = 0; i < n; i++) {
        CMDLINE_OPTION* o = &c->opts[i];
        int k = 0;
        do {
            o->id = (rn(3) == 0) ? (int) rnd() : (int) rn(300) - 100;
        } while(o->id == 0 || o->id == CMDLINE_OPTID_UNKNOWN || o->id == CMDLINE_OPTID_MISSINGARG || o->id == CMDLINE_OPTID_BOGUSARG);
        if(style != 0 && rn(4) == 0) {
            o->flags = CMDLINE_OPTFLAG_COMPILERLIKE;
            if(rn(3) == 0) o->flags |= CMDLINE_OPTFLAG_REQUIREDARG;
            if(rn(2)) buf[k++] = '-';
            if(style == 3) k = 0;
            if(rn(8) == 0 && k) buf[k++] = '-';
            if(k == 0 || rn(8) != 0)
                mk_name(buf, &k, name_len(2, 40));
            buf[k] = '\0';
            o->longname = mk_str(buf);
            if(rn(2)) o->shortname = mk_char();      /* to be ignored */
        } else {
            int what = (int) rn(3);
            if(what != 0) {
                mk_name(buf, &k, name_len(3, 60));
                if(rn(3) == 0 && i > 0 && c->opts[i - 1].longname != NULL && strlen(c->opts[i - 1].longname) < 100) {
                    /* an extension of the previous name */
                    strcpy(buf, c->opts[i - 1].longname);
                    k = (int) strlen(buf);
                    mk_name(buf, &k, 2);
                }
                o->longname = mk_str(buf);
            }
            if(what != 1)
                o->shortname = mk_char();
            switch(rn(4)) {
                case 0: o->flags = CMDLINE_OPTFLAG_REQUIREDARG; break;
                case 1: o->flags = CMDLINE_OPTFLAG_OPTIONALARG; break;
                default: break;
            }
        }
    }
    /* Only the id of the terminating record matters. */
    if(rn(2)) {
        c->opts[n].shortname = 'a';
        c->opts[n].flags = (unsigned) rn(8);
        c->opts[n].longname = (const char*) (uintptr_t) 16;
    }
}

static void
mk_arg(struct cmd* c, char* buf)
{
    int k = 0;
    const CMDLINE_OPTION* o = (c->n_opts > 0) ? &c->opts[rn((u64) c->n_opts)] : NULL;

    buf[0] = '\0';
    if(o == NULL || rn(8) == 0) {
        switch(rn(7)) {
            case 0: strcpy(buf, "--"); return;
            case 1: strcpy(buf, "-"); return;
            case 2: return;
            case 3: strcpy(buf, "--="); k = 3; if(rn(2)) mk_name(buf, &k, 3); return;
            case 4: buf[0] = '-'; k = 1; mk_name(buf, &k, 5); return;
            case 5: buf[0] = '-'; buf[1] = '-'; k = 2; mk_name(buf, &k, (rn(4) == 0) ? 80 : 5);
                    if(rn(2)) { buf[k++] = '='; buf[k] = '\0'; if(rn(2)) mk_name(buf, &k, 4); }
                    return;
            default: mk_name(buf, &k, 5); return;
        }
    }
    if((o->flags & CMDLINE_OPTFLAG_COMPILERLIKE) && rn(5) != 0) {
        strcpy(buf, o->longname);
        k = (int) strlen(buf);
        switch(rn(4)) {
            case 0: break;
            case 1: if(k > 1) buf[--k] = '\0'; break;
            case 2: if(k > 300) { buf[k - 256] = '\0'; break; }  /* FALLTHRU */
            default: mk_name(buf, &k, 5); break;
        }
        return;
    }
    if(o->longname != NULL && rn(2)) {
        strcpy(buf, "--");
        strcat(buf, o->longname);
        k = (int) strlen(buf);
        switch(rn(8)) {
            case 0: case 1: break;
            case 2: if(k > 3) buf[--k] = '\0'; break;
            case 3: if(k > 300 && rn(2)) buf[k -= 256] = '\0'; mk_name(buf, &k, 3); break;
            case 4: if(k > 300 && rn(3) == 0) k -= 256; buf[k++] = '='; buf[k] = '\0'; break;
            case 5: buf[--k] = mk_char(); k++; if(rn(2)) { buf[k++] = '='; buf[k] = '\0'; } break;
            default: buf[k++] = '='; mk_name(buf, &k, 6); if(rn(4) == 0) { buf[k++] = '='; buf[k] = '\0'; } break;
        }
        return;
    }
    buf[k++] = '-';
    {
        int len = (int) rr(1, 6);
        while(len-- > 0) {
            o = &c->opts[rn((u64) c->n_opts)];
            buf[k++] = (o->shortname != '\0' && rn(10) != 0) ? o->shortname : mk_char();
        }
        if(rn(10) == 0) buf[k++] = '-';
        if(rn(10) == 0) { buf[k++] = '='; buf[k++] = 'v'; }
        buf[k] = '\0';
    }
}

static void
mk_cmd(struct cmd* c)
{
    int i, n_long = 0;
    char buf[MAX_STR + 1000];
    memset(c, 0, sizeof(*c));
    mk_options(c);
    c->argc = (rn(30) == 0) ? 0 : 1 + (int) rn((u64) lim_args);
    c->argv = xmalloc(sizeof(char*) * (size_t) c->argc + (c->argc == 0));
    for(i = 0; i < c->argc; i++) {
        mk_arg(c, buf);
        if(lengthen && *buf != '\0' && n_long < 3 && rn(60) == 0) {
            size_t k = strlen(buf), m = rr(100, MAX_STR - 10);
            n_long++;
            for(; k < m; k++)
                buf[k] = buf[k - 1];
            buf[k] = '\0';
            EV("very long arguments");
        }
        c->argv[i] = mk_str(buf);
    }
    EVMAX("arguments", c->argc);
    EVMAX("options in the table", c->n_opts);
    c->hash = cmd_hash(c);
}

static void
free_cmd(struct cmd* c)
{
    int i;
    for(i = 0; i < c->argc; i++)
        xfree(c->argv[i]);
    for(i = 0; i < c->n_opts; i++)
        xfree((void*) c->opts[i].longname);
    xfree(c->argv);
    xfree(c->opts);
}

/* ---------------------------------------------------------------------- */
/* The parse under observation. */

struct ctx {
    u64 magic;
    struct event* ev;
    int n_ev;
    int at;                 /* callback calls seen */
    int abort_at;           /* -1 never */
    int abort_code;
    int depth;
    int nest_at;            /* call a nested parse from this call */
};

static void run_parse(const struct cmd* c, struct event* ev, int n_ev, int abort_at, int abort_code, int depth, int nest_at);
static struct cmd nested_cmd;
static struct event nested_ev[MAX_EVENTS];
static int nested_n;

static int
on_item(int id, const char* arg, void* userdata)
{
    struct ctx* x = userdata;
    struct event* e;

    CHECK(x->magic == 0xfeedfacecafebeefULL, "the callback did not get the caller's context");
    CHECK(x->abort_at < 0 || x->at <= x->abort_at, "the callback was called after it had returned %d", x->abort_code);
    CHECK(x->at < x->n_ev, "call no. %d of the callback (id %d, arg \"%s\"): only %d expected", x->at, id, arg ? arg : "(null)", x->n_ev);
    e = &x->ev[x->at];
    CHECK(id == e->id, "call no. %d reports id %d, expected %d", x->at, id, e->id);
    switch(e->kind) {
        case 0:
            CHECK(arg == NULL, "call no. %d: argument \"%s\" where there is none", x->at, arg);
            break;
        case 1:
            CHECK(arg != NULL, "call no. %d: no argument", x->at);
            CHECK(arg == e->ptr, "call no. %d: argument \"%s\" is not the caller's \"%s\"", x->at, arg, e->ptr);
            EV("arguments passed by pointers into the caller's strings");
            break;
        case 2:
            CHECK(arg != NULL && ev_text_is(e, arg), "call no. %d: \"%s\" instead of \"%.*s\"", x->at, arg ? arg : "(null)", (int) e->len, ev_text(e));
            break;
        default:
            CHECK(arg != NULL, "call no. %d: NULL instead of \"%.*s\"", x->at, (int) e->len, ev_text(e));
            CHECK(ev_text_is(e, arg) || (strlen(arg) >= 31 && e->len > 31 && strlen(arg) < e->len && memcmp(arg, ev_text(e), strlen(arg)) == 0),
                  "call no. %d: \"%s\" instead of \"%.*s\"", x->at, arg, (int) e->len, ev_text(e));
            break;
    }
    if(x->nest_at == x->at && x->depth == 0) {
        /* A callback may parse something else meanwhile. */
        char keep[MAX_STR + 4];
        if(arg != NULL) strcpy(keep, arg);
        run_parse(&nested_cmd, nested_ev, nested_n, -1, 0, 1, -1);
        CHECK(arg == NULL || strcmp(arg, keep) == 0, "call no. %d: a nested parse changed the argument", x->at);
        EV("nested parses");
    }
    x->at++;
    EV("callback calls");
    return (x->abort_at == x->at - 1) ? x->abort_code : 0;
}

static void
run_parse(const struct cmd* c, struct event* ev, int n_ev, int abort_at, int abort_code, int depth, int nest_at)
{
    struct ctx x = { 0xfeedfacecafebeefULL, ev, n_ev, 0, abort_at, abort_code, depth, nest_at };
    int r;
    OP("cmdline_read argc=%llu options=%llu abort_at=%lld", c->argc, c->n_opts, (i64) abort_at);
    r = cmdline_read(c->opts, c->argc, c->argv, on_item, &x);
    if(abort_at >= 0 && abort_at < n_ev) {
        CHECK(r == abort_code, "returned %d after the callback aborted with %d", r, abort_code);
        CHECK(x.at == abort_at + 1, "%d calls instead of %d", x.at, abort_at + 1);
        EV("aborted parses");
    } else {
        CHECK(r == 0, "returned %d", r);
        CHECK(x.at == n_ev, "%d calls of the callback instead of %d", x.at, n_ev);
        EV("complete parses");
    }
    CHECK(cmd_hash(c) == c->hash, "the arguments or the option table were modified");
}

static struct event the_ev[MAX_EVENTS];

static void
mode_parse(u64 ep)
{
    int i;
    for(i = 0; i < 20 && mon_more(); i++) {
        struct cmd c;
        int n;
        if(i == 0 && ep % 8 == 0) { lim_opts = 200; lim_args = 150; lengthen = 1; }
        mk_cmd(&c);
        lim_opts = MAX_OPTS; lim_args = MAX_ARGS; lengthen = 0;
        n = ref_parse(&c, the_ev);
        mk_cmd(&nested_cmd);
        nested_n = ref_parse(&nested_cmd, nested_ev);
        run_parse(&c, the_ev, n, -1, 0, 0, -1);
        if(n > 0 && rn(2))
            run_parse(&c, the_ev, n, -1, 0, 0, (int) rn((u64) n));
        EVAL(cmd_ident(&c));
        free_cmd(&c);
        free_cmd(&nested_cmd);
    }
}

static void
mode_abort(u64 ep)
{
    static const int codes[] = { 1, -1, 2, 255, 256, INT_MAX, INT_MIN, 0x10000, -256 };
    int i, k;
    (void) ep;
    for(i = 0; i < 6 && mon_more(); i++) {
        struct cmd c;
        int n;
        mk_cmd(&c);
        n = ref_parse(&c, the_ev);
        run_parse(&c, the_ev, n, -1, 0, 0, -1);
        for(k = 0; k < n; k++) {
            int code = (rn(2)) ? codes[rn(9)] : (int) rnd();
            if(code == 0) code = 5;
            run_parse(&c, the_ev, n, k, code, 0, -1);
            EVAL(h2(cmd_ident(&c), (u64) k));
        }
        free_cmd(&c);
    }
}

/* Very many arguments, or very many options. */
static void
mode_many(u64 ep)
{
    static const size_t ends[] = { 32766, 32767, 32768, 32769, 65535, 65536, 65537, 70000 };
    char* pool[64];
    char* dashdash;
    char buf[MAX_STR + 1000];
    struct cmd c;
    int i, n, n_pool = 64;

    memset(&c, 0, sizeof(c));
    if(ep % 4 == 3)
        lim_opts = (int) ends[rn(8)];
    mk_options(&c);
    lim_opts = MAX_OPTS;
    for(i = 0; i < n_pool; i++) {
        do mk_arg(&c, buf); while(strcmp(buf, "--") == 0 || strlen(buf) > 400);
        pool[i] = mk_str(buf);
    }
    c.argc = (ep % 4 == 3) ? (int) rr(1, 60) : (int) ends[rn(8)] + (int) rn(3);
    c.argv = xmalloc(sizeof(char*) * (size_t) c.argc);
    for(i = 0; i < c.argc; i++)
        c.argv[i] = pool[rn((u64) n_pool)];
    dashdash = mk_str("--");
    if(rn(3) == 0)
        c.argv[rn((u64) c.argc)] = dashdash;
    EVMAX("arguments", c.argc);
    EVMAX("options in the table", c.n_opts);
    c.hash = cmd_hash(&c);
    n = ref_parse(&c, the_ev);
    run_parse(&c, the_ev, n, -1, 0, 0, -1);
    for(i = 0; i < 3 && n > 0; i++)
        run_parse(&c, the_ev, n, (int) rn((u64) n), 1 + (int) rn(1000), 0, -1);
    EVAL(cmd_ident(&c));
    xfree(dashdash);
    for(i = 0; i < n_pool; i++)
        xfree(pool[i]);
    for(i = 0; i < c.n_opts; i++)
        xfree((void*) c.opts[i].longname);
    xfree(c.argv);
    xfree(c.opts);
}

const struct mon_mode mon_modes[] = {
    { "parse", mode_parse },
    { "abort", mode_abort },
    { "many", mode_many },
    { NULL, NULL }
};
