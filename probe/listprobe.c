/* list.h has no object code of its own: the operations as a user compiles them */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include <futils/list.h>
#include "listprobe.h"

static pthread_mutex_t lp_mutex[2] = {PTHREAD_MUTEX_INITIALIZER, PTHREAD_MUTEX_INITIALIZER};
void lp_lock(int k) { pthread_mutex_lock(&lp_mutex[k]); }
void lp_unlock(int k) { pthread_mutex_unlock(&lp_mutex[k]); }
static struct list_node lp_static[2] = {list_head_init(lp_static[0]), list_head_init(lp_static[1])};
struct list_node *lp_static_head(int k)
{
	/* as the compiler initialised it */
	struct list_node h[2] = {list_head_init(h[0]), list_head_init(h[1])};
	if (!list_is_empty(&h[0]) || !list_is_empty(&h[1]) || list_first(&h[1]) != &h[1] || list_last(&h[0]) != &h[0])
		return NULL;
	lp_static[k].next = lp_static[k].prev = &lp_static[k];
	return &lp_static[k];
}
struct lp_item *lp_new(uint32_t id)
{
	struct lp_item *i = malloc(sizeof(*i));
	if (!i)
		return NULL;
	i->id = id;
	list_node_unref(&i->node);
	list_node_unref(&i->other);
	return i;
}
void lp_free(struct lp_item *i) { free(i); }
void lp_op(int op, struct list_node *a, struct list_node *b, struct list_node *c)
{
	switch (op) {
	case LP_INIT: list_init(a); break;
	case LP_UNREF: list_node_unref(a); break;
	case LP_ADD: list_add(a, b, c); break;
	case LP_ADD_AFTER: list_add_after(a, b); break;
	case LP_ADD_BEFORE: list_add_before(a, b); break;
	case LP_PUSH: list_push(a, b); break;
	case LP_DEL: list_del(a); break;
	case LP_DEL_INIT: list_del_init(a); break;
	case LP_DETACH: list_detach(a, b); break;
	case LP_REPLACE: list_replace(a, b); break;
	case LP_REPLACE_INIT: list_replace_init(a, b); break;
	case LP_MOVE_AFTER: list_move_after(a, b); break;
	case LP_MOVE_BEFORE: list_move_before(a, b); break;
	}
}
struct list_node *lp_get(int q, const struct list_node *list, const struct list_node *n)
{
	switch (q) {
	case LP_FIRST: return list_first(list);
	case LP_LAST: return list_last(list);
	case LP_NEXT: return list_next(list, n);
	default: return list_prev(list, n);
	}
}
long lp_num(int q, const struct list_node *list, const struct list_node *n)
{
	switch (q) {
	case LP_LENGTH: return (long)list_length(list);
	case LP_IS_EMPTY: return !!list_is_empty(list);
	case LP_IS_LAST: return !!list_is_last(list, n);
	case LP_IS_REF: return !!list_node_is_ref((struct list_node *)n);
	default: return !!list_node_is_unref((struct list_node *)n);
	}
}
struct lp_item *lp_pop(struct list_node *list, int other)
{
	return other ? list_pop(list, struct lp_item, other) : list_pop(list, struct lp_item, node);
}
struct lp_item *lp_entry(struct list_node *n, int other)
{
	return other ? list_entry(n, struct lp_item, other) : list_entry(n, struct lp_item, node);
}
/* every element through one of the eight iterators; f decides what becomes of it (safe ones only) */
void lp_walk(int kind, struct list_node *list, int other, void (*f)(struct lp_item *, void *), void *arg)
{
	struct list_node *pos, *tmp;
	struct lp_item *e, *t;
	switch (kind) {
	case 0: list_walk_forward(list, pos) f(lp_entry(pos, other), arg); break;
	case 1: list_walk_backward(list, pos) f(lp_entry(pos, other), arg); break;
	case 2:
		if (other) { list_walk_entry_forward(list, e, other) f(e, arg); }
		else { list_walk_entry_forward(list, e, node) f(e, arg); }
		break;
	case 3:
		if (other) { list_walk_entry_backward(list, e, other) f(e, arg); }
		else { list_walk_entry_backward(list, e, node) f(e, arg); }
		break;
	case 4: list_walk_forward_safe(list, pos, tmp) f(lp_entry(pos, other), arg); break;
	case 5: list_walk_backward_safe(list, pos, tmp) f(lp_entry(pos, other), arg); break;
	case 6:
		if (other) { list_walk_entry_forward_safe(list, e, t, other) f(e, arg); }
		else { list_walk_entry_forward_safe(list, e, t, node) f(e, arg); }
		break;
	default:
		if (other) { list_walk_entry_backward_safe(list, e, t, other) f(e, arg); }
		else { list_walk_entry_backward_safe(list, e, t, node) f(e, arg); }
		break;
	}
}
