#pragma once
struct lp_item {
	uint32_t id;
	uint32_t pad[3];
	struct list_node node;
	int64_t deadline;
	struct list_node other;
};
enum { LP_INIT, LP_UNREF, LP_ADD, LP_ADD_AFTER, LP_ADD_BEFORE, LP_PUSH, LP_DEL, LP_DEL_INIT, LP_DETACH, LP_REPLACE, LP_REPLACE_INIT, LP_MOVE_AFTER, LP_MOVE_BEFORE };
enum { LP_FIRST, LP_LAST, LP_NEXT, LP_PREV, LP_LENGTH, LP_IS_EMPTY, LP_IS_LAST, LP_IS_REF, LP_IS_UNREF };
void lp_lock(int k);
void lp_unlock(int k);
struct list_node *lp_static_head(int k);
struct lp_item *lp_new(uint32_t id);
void lp_free(struct lp_item *i);
void lp_op(int op, struct list_node *a, struct list_node *b, struct list_node *c);
struct list_node *lp_get(int q, const struct list_node *list, const struct list_node *n);
long lp_num(int q, const struct list_node *list, const struct list_node *n);
struct lp_item *lp_pop(struct list_node *list, int other);
struct lp_item *lp_entry(struct list_node *n, int other);
void lp_walk(int kind, struct list_node *list, int other, void (*f)(struct lp_item *, void *), void *arg);
