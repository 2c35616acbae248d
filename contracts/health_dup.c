/* Contracts of the health-state transfer to a replacement collector. */
#include "ec.h"
#include "src/jitterentropy-health.h"

struct rand_data jv_new, jv_n0, jv_olde, jv_o0;

static int post_apt(void)
{
	if (!jv_o0.apt_observations)
		return jv_same(&jv_new, &jv_n0, G_ALL);
	return jv_new.apt_base == jv_o0.apt_base && jv_new.apt_base_set &&
	       jv_new.apt_count == jv_n0.apt_cutoff &&
	       jv_new.apt_observations == jv_o0.apt_observations &&
	       jv_same(&jv_new, &jv_n0, G_ALL & ~G_APT);
}
static int post_rct(void)
{
	return jv_new.rct_count == jv_n0.rct_cutoff && jv_same(&jv_new, &jv_n0, G_ALL & ~G_RCT);
}
static int post_lag(void)
{
	return jv_same(&jv_new, &jv_o0, G_LAG) && jv_same(&jv_new, &jv_n0, G_ALL & ~G_LAG);
}
static int post_mem(void)
{
	return jv_new.rct_mem_count == jv_o0.rct_mem_cutoff &&
	       jv_new.rct_mem_ctr == jv_n0.rct_mem_ctr &&
	       jv_new.rct_mem_nosr == jv_n0.rct_mem_nosr &&
	       jv_same(&jv_new, &jv_n0, G_ALL & ~G_MEM);
}
#define OLDSAME jv_same(&jv_olde, &jv_o0, G_ALL)

#ifdef JV_CBMC
void jent_lag_duplicate(struct rand_data *new_ec, struct rand_data *old_ec)
JV_REQUIRES(new_ec == &jv_new && old_ec == &jv_olde)
JV_ASSIGNS(*new_ec)
JV_ENSURES(post_lag());
void jent_apt_duplicate(struct rand_data *new_ec, struct rand_data *old_ec)
JV_REQUIRES(new_ec == &jv_new && old_ec == &jv_olde)
JV_ASSIGNS(*new_ec)
JV_ENSURES(post_apt());
void jent_rct_duplicate(struct rand_data *new_ec)
JV_REQUIRES(new_ec == &jv_new)
JV_ASSIGNS(*new_ec)
JV_ENSURES(post_rct());
void jent_rct_mem_duplicate(struct rand_data *new_ec, struct rand_data *old_ec)
JV_REQUIRES(new_ec == &jv_new && old_ec == &jv_olde)
JV_ASSIGNS(*new_ec)
JV_ENSURES(post_mem());
#endif

#include JV_TU

void jv_harness(void)
{
	jv_fill_ec(&jv_new);
	jv_fill_ec(&jv_olde);
	jv_n0 = jv_new;
	jv_o0 = jv_olde;
#if JV_P == 1
	jent_lag_duplicate(&jv_new, &jv_olde);
	JV_CHECK(post_lag(), "the lag predictor continues with the complete history");
#elif JV_P == 2
	jent_apt_duplicate(&jv_new, &jv_olde);
	JV_CHECK(post_apt(), "the adaptive proportion test continues at its intermittent cut-off");
	JV_COVER(jv_o0.apt_observations, "open window");
#elif JV_P == 3
	jent_rct_duplicate(&jv_new);
	JV_CHECK(post_rct(), "the repetition count test continues at its intermittent cut-off");
#else
	jent_rct_mem_duplicate(&jv_new, &jv_olde);
	JV_CHECK(post_mem(), "the memory repetition test continues at its intermittent cut-off");
#endif
	JV_CHECK(OLDSAME, "the replaced collector is not touched");
	JV_COVER(1, "reached");
}
