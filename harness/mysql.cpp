// C40 MySQL wrapper over a model of the client library.  What each library call gives is a choice.
#include "hcommon.h"
#include "CMysql.h"
using namespace lce;
enum { FRESH, INIT, CONN, LOST, CLOSED };   // state of the handle
static int faults = 0;                      // how many library calls may still fail
static int nlost = 0, nother = 0;           // during the present operation
static MYSQL* handle = 0; static int hst = FRESH; static std::string cur_db, cur_cs; static bool has_db = false; static unsigned cur_errno = 0; static int conns = 0, closes = 0, results = 0, executed = 0;
static std::string exec_sql, exec_db, exec_cs; static bool exec_has_db = false; static unsigned conn_port = 0; static std::string conn_host, conn_user, conn_pass;
// the answer the server has ready
static int a_cols = 0, a_rows = 0; static uint64_t a_affected = 0;
#ifndef MC
#define MC 3
#define MR 3
#endif
static char a_name[MC]; static std::string a_cell[MR][MC]; static bool a_null[MR][MC];
struct Res { int cols, rows, fpos, rpos; MYSQL_FIELD* f; char** row; unsigned long* len; char* names[MC]; std::vector<char*> cells; };
static Res* open_res = 0;
static bool fault() { if (faults > 0 && sym_bool("fault")) { faults--; return true; } return false; }
static int fail(bool may_lose) { // the present call fails; -> its error number
  int k = may_lose ? sym_choice(3, "error") : 0; if (k == 0) { nother++; cur_errno = 1064; } else { nlost++; hst = LOST; cur_errno = k == 1 ? 2013 : 2006; } return 1; }
static void use(MYSQL* m, bool conn) { CHECK(m && m == handle, "the client library is given the connector's handle"); CHECK(hst != FRESH, "no handle is used before it is initialised"); CHECK(hst != CLOSED, "no handle is used after it was closed");
  (void)conn; }
extern "C" {
MYSQL* STDCALL mysql_init(MYSQL* m) { CHECK(m, "a handle is given"); CHECK(hst != CONN && hst != LOST, "a connected handle is closed before it is initialised again"); memset(m, 0, sizeof *m); handle = m; hst = INIT; has_db = false; cur_db = ""; cur_cs = ""; cur_errno = 0; return m; }
int STDCALL mysql_options(MYSQL* m, enum mysql_option o, const void* v) { use(m, false); CHECK(hst == INIT, "options are set before connecting"); if (o == MYSQL_SET_CHARSET_NAME) cur_cs = (const char*)v; return 0; }
MYSQL* STDCALL mysql_real_connect(MYSQL* m, const char* h, const char* u, const char* p, const char* db, unsigned port, const char*, unsigned long) {
  use(m, false); CHECK(hst == INIT, "a handle is connected once"); conn_host = h; conn_user = u; conn_pass = p; conn_port = port; if (fault()) { nother++; cur_errno = 2003; return 0; } hst = CONN; conns++; if (db) { has_db = true; cur_db = db; } return m; }
void STDCALL mysql_close(MYSQL* m) { use(m, false); CHECK(!open_res, "results are released before the connection is closed"); if (hst == CONN || hst == LOST) closes++; hst = CLOSED; }
unsigned STDCALL mysql_errno(MYSQL* m) { use(m, false); return cur_errno; }
const char* STDCALL mysql_error(MYSQL* m) { use(m, false); return cur_errno ? "failed" : ""; }
static int broken() { if (hst != CONN) { nlost++; cur_errno = 2006; return 1; } return 0; }
int STDCALL mysql_select_db(MYSQL* m, const char* db) { use(m, true); if (broken()) return 1; if (!*db) { nother++; cur_errno = 1046; return 1; } if (fault()) return fail(true); cur_db = db; has_db = true; cur_errno = 0; return 0; }
int STDCALL mysql_real_query(MYSQL* m, const char* q, unsigned long n) {
  use(m, true); if (broken()) return 1; if (fault()) return fail(true); exec_sql.assign(q, n); exec_db = cur_db; exec_has_db = has_db; exec_cs = cur_cs; executed++; cur_errno = 0; return 0; }
int STDCALL mysql_query(MYSQL* m, const char* q) { return mysql_real_query(m, q, strlen(q)); }
unsigned STDCALL mysql_field_count(MYSQL* m) { use(m, true); return a_cols; }
my_ulonglong STDCALL mysql_affected_rows(MYSQL* m) { use(m, true); if (hst == CONN && fault()) { fail(false); return (my_ulonglong)-1; } return a_affected; }
MYSQL_RES* STDCALL mysql_store_result(MYSQL* m) {
  use(m, true); CHECK(!open_res, "one result at a time"); if (broken() || a_cols == 0) return 0; if (fault()) { fail(true); return 0; }
  Res* r = new Res(); r->cols = a_cols; r->rows = a_rows; r->fpos = r->rpos = 0; r->f = (MYSQL_FIELD*)calloc(a_cols, sizeof(MYSQL_FIELD)); r->row = 0; r->len = 0;
  for (int i = 0; i < a_cols; i++) { r->names[i] = (char*)malloc(2); r->names[i][0] = a_name[i]; r->names[i][1] = 0; r->f[i].name = r->f[i].org_name = r->names[i]; r->f[i].name_length = 1; r->f[i].type = MYSQL_TYPE_STRING; }
  open_res = r; results++; return (MYSQL_RES*)r;
}
static Res* R(MYSQL_RES* x) { CHECK(x && (Res*)x == open_res, "only the present result is used"); return open_res; }
unsigned STDCALL mysql_num_fields(MYSQL_RES* x) { return R(x)->cols; }
my_ulonglong STDCALL mysql_num_rows(MYSQL_RES* x) { return R(x)->rows; }
MYSQL_FIELD* STDCALL mysql_fetch_field(MYSQL_RES* x) { Res* r = R(x); return r->fpos < r->cols ? &r->f[r->fpos++] : 0; }
MYSQL_FIELD* STDCALL mysql_fetch_fields(MYSQL_RES* x) { return R(x)->f; }
MYSQL_FIELD* STDCALL mysql_fetch_field_direct(MYSQL_RES* x, unsigned n) { Res* r = R(x); CHECK(n < (unsigned)r->cols, "a column of the result"); return &r->f[n]; }
static void drop_row(Res* r) { free(r->row); free(r->len); r->row = 0; r->len = 0; for (size_t i = 0; i < r->cells.size(); i++) free(r->cells[i]); r->cells.clear(); }
MYSQL_ROW STDCALL mysql_fetch_row(MYSQL_RES* x) {
  Res* r = R(x); drop_row(r); if (r->rpos >= r->rows) return 0; r->row = (char**)malloc(sizeof(char*) * r->cols); r->len = (unsigned long*)malloc(sizeof(unsigned long) * r->cols);
  for (int i = 0; i < r->cols; i++) { const std::string& c = a_cell[r->rpos][i]; if (a_null[r->rpos][i]) { r->row[i] = 0; r->len[i] = 0; continue; }
    char* p = (char*)malloc(c.size() + 1); memcpy(p, c.data(), c.size()); p[c.size()] = 0; r->cells.push_back(p); r->row[i] = p; r->len[i] = c.size(); }
  r->rpos++; return r->row;
}
unsigned long* STDCALL mysql_fetch_lengths(MYSQL_RES* x) { return R(x)->len; }
void STDCALL mysql_free_result(MYSQL_RES* x) { Res* r = R(x); drop_row(r); for (int i = 0; i < r->cols; i++) free(r->names[i]); free(r->f); delete r; open_res = 0; }
static int esc_calls = 0; static std::string esc_out;
unsigned long STDCALL mysql_real_escape_string(MYSQL* m, char* to, const char* from, unsigned long n) {
  use(m, true); esc_calls++; if (fault()) { nother++; cur_errno = 2000; return (unsigned long)-1; }
  size_t k = 0; for (unsigned long i = 0; i < n; i++) { char c = from[i]; if (c == 0 || c == '\n' || c == '\r' || c == '\\' || c == '\'' || c == '"' || c == 26) to[k++] = '\\'; to[k++] = c; } to[k] = 0; esc_out.assign(to, k); return k;
}
}
static void clear_op() { nlost = nother = 0; executed = 0; }
static void arbitrary_answer(int maxc, int maxr, int maxlen) {
  a_cols = sym_choice(maxc + 1, "columns"); a_rows = a_cols ? sym_choice(maxr + 1, "rows") : 0; a_affected = a_cols ? 0 : sym_range(0, ~0ull - 1, "affected");
  for (int i = 0; i < a_cols; i++) { a_name[i] = sym_u8("name"); sym_assume(a_name[i] != 0); }
  for (int r = 0; r < a_rows; r++) for (int c = 0; c < a_cols; c++) { int k = sym_choice(maxlen + 2, "cell"); a_null[r][c] = k == 0; a_cell[r][c] = k ? sym_string(k - 1, "bytes") : std::string(); }
}
static bool dup_names() { for (int i = 0; i < a_cols; i++) for (int j = 0; j < i; j++) if (a_name[i] == a_name[j]) return true; return false; }
static void check_result(const MySqlData& d) {
  CHECK(d.num_fields() == (size_t)a_cols, "as many columns as fetched"); CHECK(d.num_rows() == (size_t)a_rows, "as many rows as fetched"); if (!a_cols) CHECK(d.affected_rows() == a_affected, "the number of affected rows as reported");
  const vector<string>& f = d.Fields(); CHECK(f.size() == (size_t)a_cols, "a name for every column"); for (int c = 0; c < a_cols; c++) CHECK(f[c].size() == 1 && f[c][0] == a_name[c], "column names in order");
  for (int r = 0; r < a_rows; r++) for (int c = 0; c < a_cols; c++) CHECK(str_eq(d[r][string(1, a_name[c])], a_cell[r][c]), "every cell as fetched (NULL reads as empty text)");
}
#if HT == 1 // every shape and content of a result, read by row number and column name, copied and assigned
extern "C" void harness(void) {
  int64_t base = 0; { CMySql warm; } base = sym_heap_live();
  {
    CMySql m; m.Init("h", "u", "p", 1, ""); arbitrary_answer(COLS, ROWS, LEN); clear_op();
    try {
      MySqlData d = m.query("q"); CHECK(!dup_names(), "two columns of one name are refused"); CHECK(!open_res, "the library's result is released"); check_result(d); sym_reach(a_cols ? a_rows ? "rows" : "norows" : "affected");
      size_t bad = sym_u32("badrow"); sym_assume(bad >= (size_t)a_rows); bool thrown = false; try { d[bad]; } catch (mysql_exception&) { thrown = true; } CHECK(thrown, "a row that does not exist is refused");
      if (a_rows) { char n = sym_u8("badname"); for (int c = 0; c < a_cols; c++) sym_assume(n != a_name[c]); thrown = false; try { d[0][string(1, n)]; } catch (mysql_exception&) { thrown = true; } CHECK(thrown, "a column that does not exist is refused"); }
      { int use = sym_choice(4, "copies");
        if (use == 0) { MySqlData e(d); check_result(e); d = e; check_result(d); sym_reach("copied"); }
        else if (use == 1) { d = d; check_result(d); sym_reach("self"); }
        else if (use == 2) { MySqlData* e = new MySqlData(d); MySqlData g(*e); delete e; d = g; check_result(d); check_result(g); }
        else { int c0 = a_cols; a_cols = 0; uint64_t af = a_affected; MySqlData e = m.query("r"); a_cols = c0; e = d; check_result(e); check_result(d); (void)af; sym_reach("assigned"); }
      }
      if (a_rows) { MySqlRowData row = d[0]; row = d[a_rows - 1]; for (int c = 0; c < a_cols; c++) CHECK(str_eq(row[string(1, a_name[c])], a_cell[a_rows - 1][c]), "a copied row reads the same"); }
    } catch (mysql_exception& e) { CHECK(dup_names(), "a valid result is presented"); CHECK(!open_res, "the library's result is released"); sym_reach("duplicate"); }
  }
  CHECK(conns == closes, "connections are closed once"); CHECK(sym_heap_live() <= base + 2, "everything is released"); sym_reach("done");
}
#elif HT == 2 // histories of calls with failures of the client library
extern "C" void harness(void) {
  static const char* DBS[] = {"", "a", "b"}; static const char* CSS[] = {"utf8", "latin1"};
  {
    CMySql m; std::string want_db, want_cs; bool inited = false; faults = FAULTS; uint16_t port = 0;
    for (int s = 0; s < STEPS; s++) {
      int op = s == 0 && FIRST >= 0 ? FIRST : sym_choice(5, "op"); clear_op();
      try {
        if (op == 0) { want_cs = sym_bool("cs") ? CSS[0] : ""; want_db = ""; port = sym_u16("port"); inited = true; m.Init("host", "user", "pass", port, want_cs); CHECK(hst == CONN && cur_cs == want_cs, "connected as told"); sym_reach("init"); }
        else if (op == 1) { want_db = DBS[1 + sym_choice(2, "db")]; m.use(want_db); CHECK(hst == CONN && cur_db == want_db, "the database is the one chosen"); sym_reach("use"); }
        else if (op == 2) {
          a_cols = sym_choice(2, "select"); a_rows = a_cols; a_name[0] = 'n'; a_null[0][0] = false; a_cell[0][0] = "v"; a_affected = sym_u32("affected"); std::string q(1, (char)sym_u8("query"));
          MySqlData d = m.query(q); CHECK(executed == 1, "a query that is reported as successful was executed once"); CHECK(str_eq(exec_sql, q), "the query as given"); CHECK(exec_db == want_db, "in the database chosen last"); CHECK(exec_cs == want_cs, "with the character set chosen last"); check_result(d); sym_reach(nlost ? "repaired" : "query");
        } else if (op == 3) { want_cs = CSS[sym_choice(2, "cs")]; m.setCharSet(want_cs); sym_reach("charset"); }
        else { std::string t = sym_string(1, "text"), e = m.escape_string(t); CHECK(str_eq(e, esc_out), "the escaped text as the library gave it"); sym_reach("escape"); }
        if (!inited) CHECK(op == 3, "nothing but the character set can be used before a connection was set up");
      } catch (mysql_exception& e) {
        if (inited) { CHECK(nother > 0 || nlost > 0, "an operation is reported as failed only when something failed"); if (op == 1) CHECK(nother > 0 || nlost > 1, "a connection that was lost is set up again"); if (op == 2) CHECK(nother > 0 || nlost > 1 || executed, "a connection that was lost is set up again"); sym_reach("failed"); }
        else { CHECK(op != 3, "the character set can be chosen at any time"); sym_reach("toosoon"); }
      }
      CHECK(!open_res, "the library's result is released"); if (inited) CHECK(conn_host == "host" && conn_user == "user" && conn_pass == "pass" && conn_port == port, "the connection goes to the given server");
    }
  }
  CHECK(conns == closes, "connections are closed once"); sym_reach("done");
}
#elif HT == 4 // a large result, long texts
extern "C" void harness(void) {
  int64_t base = 0; { CMySql warm; } base = sym_heap_live(); static const int SZ[] = {0, 1, 255, 256, 1023, 1024, 1025, 4096, 70000};
  { CMySql m; m.Init("h", "u", "p", 1, ""); clear_op(); a_cols = 1 + sym_choice(2, "wide") * (MC - 1); a_rows = a_cols == 1 ? MR : MR / 4;
    for (int c = 0; c < a_cols; c++) a_name[c] = 'A' + c; for (int r = 0; r < a_rows; r++) for (int c = 0; c < a_cols; c++) { int k = r * a_cols + c; a_null[r][c] = k % 7 == 3; std::string s(k % 50 == 9 ? SZ[k / 50 % 9] : k % 12, 'x'); if (!s.empty()) { sym_pattern(&s[0], s.size(), k, 0); if (s.size() > 200) s[s.size() / 2] = (char)sym_u8("b"); } a_cell[r][c] = a_null[r][c] ? std::string() : s; }
    std::string q(70000, 'q'); sym_pattern(&q[0], q.size(), 1, 0); q[69999] = (char)sym_u8("b"); MySqlData d = m.query(q); CHECK(executed == 1 && str_eq(exec_sql, q), "the query as given"); CHECK(!open_res, "the library's result is released"); check_result(d); { MySqlData e(d); check_result(e); d = e; check_result(d); }
    for (size_t i = 0; i < sizeof SZ / sizeof *SZ; i++) { std::string t(SZ[i], '\''); for (size_t k = 0; k < t.size(); k += 3) t[k] = (char)k; std::string e = m.escape_string(t); CHECK(str_eq(e, esc_out), "the escaped text as the library gave it"); } }
  CHECK(conns == closes, "connections are closed once"); for (int r = 0; r < MR; r++) for (int c = 0; c < MC; c++) std::string().swap(a_cell[r][c]); std::string().swap(exec_sql); std::string().swap(esc_out); CHECK(sym_heap_live() <= base + 6, "everything is released"); sym_reach("done");
}
#else // escaping any text
extern "C" void harness(void) {
  CMySql m; m.Init("h", "u", "p", 1, ""); faults = 1; clear_op(); int n = sym_choice(N + 1, "length"); Exact t(n); if (n) sym_bytes(t.p, n, "text");
  int64_t live = sym_heap_live();
  try { std::string e = m.escape_string(t.p, n); CHECK(esc_calls == 1 && !nother, "an escape that fails is reported"); CHECK(str_eq(e, esc_out), "the escaped text as the library gave it"); sym_reach(e.size() == (size_t)2 * n && n ? "doubled" : "escaped"); }
  catch (mysql_exception&) { CHECK(nother, "text that can be escaped is escaped"); sym_reach("failed"); }
  CHECK(sym_heap_live() <= live + 2, "everything is released");
}
#endif
