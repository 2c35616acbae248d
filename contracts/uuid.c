/* Contract of jent_uuid_generate() (C27) */
#include "jv.h"
#include "src/jitterentropy-internal.h"

uint8_t jv_r[16];
int jv_calls, jv_fail;

int jent_os_random_bytes(uint8_t *buf, size_t len)
{
	unsigned int i;
	int partial = jv_bool();

	jv_calls++;
	jv_fail = jv_bool();
	if (len != 16)
		jv_calls = 99;
	for (i = 0; i < 16; i++)
		if (!jv_fail || (partial && i < 7))
			buf[i] = jv_r[i];
	return jv_fail ? -1 : 0;
}

#include JV_TU

void jv_harness(void)
{
	char out[JENT_UUID_STRLEN + 2];
	unsigned int i, j = 0;

	for (i = 0; i < 16; i++)
		jv_r[i] = (uint8_t)jv_u64();
	for (i = 0; i < sizeof(out); i++)
		out[i] = 'x';
	jent_uuid_generate(out + 1);
	JV_CHECK(jv_calls == 1, "16 bytes are asked for once");
	JV_CHECK(out[0] == 'x' && out[JENT_UUID_STRLEN + 1] == 'x', "nothing outside of the identifier is written");
	JV_CHECK(JENT_UUID_STRLEN == 37 && out[37] == 0, "36 characters, terminated");
	for (i = 0; i < 36; i++) {
		char c = out[1 + i];
		unsigned int nib, want;

		if (i == 8 || i == 13 || i == 18 || i == 23) {
			JV_CHECK(c == '-', "8-4-4-4-12");
			continue;
		}
		JV_CHECK((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f'), "lower-case hexadecimal digits");
		nib = c >= 'a' ? (unsigned int)(c - 'a') + 10 : (unsigned int)(c - '0');
		want = j & 1 ? jv_r[j / 2] & 15u : jv_r[j / 2] >> 4;
		if (j == 12)
			want = 4;
		if (j == 16)
			want = 8 | (want & 3);
		if (jv_fail)
			want = 0;
		JV_CHECK(nib == want, "version 4, RFC variant and the random bits delivered, or all zero without randomness");
		j++;
	}
	JV_COVER(jv_fail, "no randomness");
	JV_COVER(!jv_fail, "randomness");
}
