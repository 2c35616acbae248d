/* Contract of jent_health_init(): cut-offs as a function of rate and mode. */
#include "ec.h"
#include "src/jitterentropy-health.h"

struct rand_data jv_ec, jv_old;

/* the documented tables, index = oversampling rate - 1 */
static const unsigned int S_LG[20] = { 66443, 93504, 104761, 110875, 114707, 117330, 119237,
	120686, 121823, 122739, 123493, 124124, 124660, 125120, 125520, 125871, 126181, 126457,
	126704, 126926 };
static const unsigned int S_LGP[20] = { 66876, 93896, 105108, 111188, 114993, 117596, 119486,
	120920, 122045, 122951, 123696, 124318, 124847, 125301, 125695, 126041, 126346, 126617,
	126860, 127079 };
static const unsigned int S_LL[20] = { 38, 75, 111, 146, 181, 215, 250, 284, 318, 351, 385, 419,
	452, 485, 518, 551, 584, 617, 650, 683 };
static const unsigned int S_LLP[20] = { 60, 119, 177, 234, 291, 347, 404, 460, 516, 571, 627, 683,
	738, 793, 848, 903, 958, 1013, 1068, 1123 };
static const unsigned int S_A[2][20] = {
	{ 325, 422, 459, 477, 488, 494, 499, 502, 505, 507, 508, 509, 510, 511, 512, 512, 512, 512,
	  512, 512 },
	{ 17, 71, 136, 191, 236, 272, 301, 325, 345, 361, 375, 388, 398, 407, 415, 422, 429, 434,
	  439, 444 } };
static const unsigned int S_AP[2][20] = {
	{ 355, 447, 479, 494, 502, 507, 510, 512, 512, 512, 512, 512, 512, 512, 512, 512, 512, 512,
	  512, 512 },
	{ 26, 92, 162, 221, 267, 303, 332, 355, 375, 390, 404, 415, 425, 433, 440, 447, 453, 458,
	  462, 466 } };
static const unsigned int S_M[2][20] = {
	{ 107, 214, 321, 428, 535, 642, 749, 856, 963, 1070, 1177, 1284, 1391, 1498, 1605, 1712,
	  1819, 1926, 2033, 2140 },
	{ 4, 46, 134, 255, 399, 560, 733, 856, 963, 1070, 1177, 1284, 1391, 1498, 1605, 1712, 1819,
	  1926, 2033, 2140 } };
static const unsigned int S_MP[2][20] = {
	{ 108, 215, 322, 429, 536, 643, 750, 857, 964, 1071, 1178, 1285, 1392, 1499, 1606, 1713,
	  1820, 1927, 2034, 2141 },
	{ 5, 50, 142, 265, 410, 572, 746, 857, 964, 1071, 1178, 1285, 1392, 1499, 1606, 1713, 1820,
	  1927, 2034, 2141 } };

static int post(enum jent_health_init_type t)
{
	const struct rand_data *n = &jv_ec;
	unsigned int osr = jv_old.osr, m = t == jent_health_init_type_ntg1, i = osr - 1;

	return n->rct_count == 0 &&
	       n->rct_cutoff == (m ? (osr * 30 + 7) / 8 : osr * 30) &&
	       n->rct_cutoff_permanent == (m ? (osr * 60 + 7) / 8 : osr * 60) &&
	       n->apt_cutoff == S_A[m][i] && n->apt_cutoff_permanent == S_AP[m][i] &&
	       n->rct_mem_cutoff == S_M[m][i] && n->rct_mem_cutoff_permanent == S_MP[m][i] &&
	       n->lag_global_cutoff == S_LG[i] && n->lag_global_cutoff_permanent == S_LGP[i] &&
	       n->lag_local_cutoff == S_LL[i] && n->lag_local_cutoff_permanent == S_LLP[i] &&
	       jv_same(n, &jv_old, G_ALL & ~(G_CUT | G_RCT));
}

#ifdef JV_CBMC
void jent_health_init(struct rand_data *ec, enum jent_health_init_type inittype)
JV_REQUIRES(ec == &jv_ec && ec->osr >= 1 && ec->osr <= 20)
JV_ASSIGNS(*ec)
JV_ENSURES(post(inittype));
#endif

#include JV_TU

void jv_harness(void)
{
	enum jent_health_init_type t = jv_bool() ? jent_health_init_type_ntg1 :
						   jent_health_init_type_common;

	jv_fill_ec(&jv_ec);
	jv_ec.osr = JV_T(unsigned int);
	JV_ASSUME(jv_ec.osr >= 1 && jv_ec.osr <= 20);
	jv_old = jv_ec;
	jent_health_init(&jv_ec, t);
	JV_CHECK(post(t), "cut-offs are the documented function of rate and mode");
	JV_COVER(t == jent_health_init_type_ntg1 && jv_ec.osr == 20, "NTG.1 at the largest rate");
	JV_COVER(t != jent_health_init_type_ntg1 && jv_ec.osr == 1, "common mode at the smallest rate");

	/* lemma over the contract: monotone in the rate, permanent never below intermittent */
	{
		unsigned int m = jv_bool(), hi = jv_ec.osr - 1, lo = JV_T(unsigned int);
		JV_ASSUME(lo <= hi);
		JV_CHECK(S_A[m][lo] <= S_A[m][hi] && S_M[m][lo] <= S_M[m][hi] &&
			 S_LG[lo] <= S_LG[hi] && S_LL[lo] <= S_LL[hi],
			 "a higher rate never selects a stricter intermittent cut-off");
		JV_CHECK(S_A[m][lo] <= S_AP[m][lo] && S_M[m][lo] <= S_MP[m][lo] &&
			 S_LG[lo] <= S_LGP[lo] && S_LL[lo] <= S_LLP[lo],
			 "a permanent cut-off is never below its intermittent one");
	}
}
