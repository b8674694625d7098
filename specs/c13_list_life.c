/* C13 (bounded): whole life of a list of up to 3 elements: append, walk, free */
#include "voucher_stubs.h"
#include "/repo/src/voucher/keyvalue.h"
#define N 3
static void life_array(void) {
  uint8_t buf[N][2];
  fill_bytes(buf, sizeof buf);
  int n = nd_int();
  REQUIRES(n >= 0 && n <= N);
  size_t len[N]; int flags[N]; bool ok[N];
  v_begin();
  struct BinaryArrayList *l = init_array_list();
  int cnt = 0, map[N];
  for (int i = 0; i < n; i++) {
    len[i] = nd_u8() & 1 ? 1 : 2; flags[i] = nd_int();
    ok[i] = push_array_list(l, buf[i], len[i], flags[i]) == 0;
    if (ok[i]) map[cnt++] = i;
  }
  v_end();
  if (l == NULL) { ENSURES(cnt == 0, "c13: nothing is appended to a missing list"); NO_LEAK("c13: no leak without a list"); return; }
  ENSURES((int)dl_list_len(&l->list) == cnt, "c13: the list has as many elements as were appended");
  struct BinaryArrayList *el;
  int i = 0;
  dl_list_for_each(el, &l->list, struct BinaryArrayList, list) {
    int j = map[i++];
    ENSURES(el->length == len[j] && el->flags == flags[j] && el->arr[0] == buf[j][0] && (len[j] < 2 || el->arr[1] == buf[j][1]),
            "c13: walking the list gives the appended elements in order");
  }
  if (cnt == N) { REACH("array life"); }
  free_array_list(l);
  NO_LEAK("c13: freeing a list releases every element");
}
static void life_kv(void) {
  char key[N][3], val[N][3];
  fill_bytes(key, sizeof key); fill_bytes(val, sizeof val);
  int n = nd_int();
  REQUIRES(n >= 0 && n <= N);
  bool ok[N];
  int cnt = 0, map[N];
  v_begin();
  struct keyvalue_list *l = init_keyvalue_list();
  for (int i = 0; i < n; i++) {
    key[i][2] = val[i][2] = 0;
    ok[i] = push_keyvalue_list(l, key[i], val[i]) == 0;
    if (ok[i]) map[cnt++] = i;
  }
  v_end();
  if (l == NULL) { ENSURES(cnt == 0, "c13: nothing is appended to a missing key-value list"); NO_LEAK("c13: no leak without a key-value list"); return; }
  ENSURES((int)dl_list_len(&l->list) == cnt, "c13: the key-value list has as many elements as were appended");
  struct keyvalue_list *el;
  int i = 0;
  dl_list_for_each(el, &l->list, struct keyvalue_list, list) {
    int j = map[i++];
    ENSURES(strcmp(el->key, key[j]) == 0 && strcmp(el->value, val[j]) == 0 && el->key != key[j] && el->value != val[j],
            "c13: walking the key-value list gives the appended pairs in order");
  }
  if (cnt == N) { REACH("kv life"); }
  free_keyvalue_list(l);
  NO_LEAK("c13: freeing a key-value list releases every element");
}
void harness(void) {
  if (nd_bool()) life_array(); else life_kv();
  free_keyvalue_list(NULL);
}
