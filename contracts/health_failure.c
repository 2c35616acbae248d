/*
 * Contract of jent_health_failure() (JV_P 1) and of the callback registration
 * with its latch (JV_P 2).
 */
#include "ec.h"
#include "src/jitterentropy-health.h"

struct rand_data jv_ec, jv_old;
unsigned int jv_calls[2];		/* ghost: invocations per callback */
struct rand_data *jv_arg_ec;		/* ghost: last arguments */
unsigned int jv_arg_hf;
int jv_sel;				/* ghost: registered callback: -1 none, 0, 1 */

static void cb0(struct rand_data *ec, unsigned int hf)
{
	jv_calls[0]++;
	jv_arg_ec = ec;
	jv_arg_hf = hf;
}

static void cb1(struct rand_data *ec, unsigned int hf)
{
	jv_calls[1]++;
	jv_arg_ec = ec;
	jv_arg_hf = hf;
}

static int post(unsigned int ret)
{
	unsigned int hf = jv_old.is_fips_enabled ? jv_old.health_failure : 0;

	return ret == hf && jv_same(&jv_ec, &jv_old, G_ALL) &&
	       jv_calls[0] == (jv_sel == 0 && hf) && jv_calls[1] == (jv_sel == 1 && hf) &&
	       (jv_sel < 0 || !hf || (jv_arg_ec == &jv_ec && jv_arg_hf == hf));
}

#if defined(JV_CBMC)
unsigned int jent_health_failure(struct rand_data *ec)
JV_REQUIRES(ec == &jv_ec && jv_calls[0] == 0 && jv_calls[1] == 0)
JV_ASSIGNS(*ec, jv_calls, jv_arg_ec, jv_arg_hf)
JV_ENSURES(post(JV_RET));
#endif

#include JV_TU
#include "arch/jitterentropy-arch-atomic.c"

static void jv_query(void)
{
	unsigned int r;

	jv_fill_ec(&jv_ec);
	jv_old = jv_ec;
	jv_calls[0] = jv_calls[1] = 0;
	r = jent_health_failure(&jv_ec);
	JV_CHECK(post(r), "the health query returns the record and calls the registered callback once");
	JV_COVER(r && jv_calls[0], "callback invoked");
	JV_COVER(!r && jv_old.health_failure, "failure not reported outside of an enforcing mode");
}

void jv_harness(void)
{
	int i, blocked = 0, ret, sel;

	jv_sel = -1;
	/* any history of registrations and initialisations: the unit keeps
	 * nothing but the callback and the latch, whose every combination is
	 * reached by these steps */
	for (i = 0; i < 4; i++) {
		if (jv_bool()) {
			jent_health_cb_block_switch();
			blocked = 1;
		} else {
			sel = (int)(jv_u64() % 3) - 1;
			ret = jent_set_fips_failure_callback_internal(sel < 0 ? NULL : sel ? cb1 : cb0);
			JV_CHECK(ret == (blocked ? -EAGAIN : 0),
				 "registration is refused with EAGAIN exactly after an initialisation started");
			if (!blocked)
				jv_sel = sel;
			JV_COVER(blocked && jv_sel == 0, "refused registration");
		}
	}
	jv_query();
}
