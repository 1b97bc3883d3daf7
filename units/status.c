/* Status and exception messages: status.c, exceptionsc.c */
#include "vp.h"
#include "fault.h"
#include <stdio.h>
#include "/repo/fiftyone.h"

#define S_N 34
/* what a message has to be about, by code */
static const char *s_about[S_N] = { "successful", "memory", "format", "version", "not be found", NULL, "unknown error", NULL, "smaller", "Null pointer", "Too many", "properties", "empty profile", "item from a collection", "copying", "already exists", "write permissions", "not read", "Permission denied", "longer", "a Yaml document", "Yaml documents", "End of file", "encoding", "valid collection", "configuration provided was not valid", "nsufficient handles", "Index", "Offset", "seek", "read operation", "IP address", "temporary", NULL };
/* whether the code is about a file, so that its message names it */
static const bool s_named[S_N] = { [2] = 1, [3] = 1, [4] = 1, [5] = 1, [6] = 1, [10] = 1, [11] = 1, [13] = 1, [14] = 1, [16] = 1, [18] = 1, [19] = 1, [23] = 1, [29] = 1, [30] = 1 };
static char *s_msg(int code, const char *f) { vp_use_allocator(); return (char*)fiftyoneDegreesStatusGetMessage((fiftyoneDegreesStatusCode)code, f); }
static int s_code(void) { int c = (int)vp_range(0, S_N + 7); static const int other[] = { -1, 1000, 99999, 2147483647, -2147483647 - 1, 123456789, -99 }; return c <= S_N ? c : other[c - S_N - 1]; }
/* @unit status_message_bounded
 * @property P14
 * @kind enum
 * @entry h_status
 * @contracts fiftyoneDegreesStatusGetMessage
 * @secs 60
 * @bound every status code and eight others, file names of eight kinds up to 5000 characters, one failing allocation
 */
void h_status(void) {
	int code = s_code();
	static char lng[5001]; memset(lng, 'x', 5000);
	const char *files[] = { NULL, "", "a", "%s%n%d", "data file.hash", lng, "null", "..\\\x80\xff" };
	const char *f = files[vp_range(0, 7)];
	char *m[2], *marked;
	marked = s_msg(code, "\x01\x01"); vp_assert(marked != NULL && marked[0] != 0, "there is a message");
	char *tpl = vp_new(strlen(marked) + 1); strcpy(tpl, marked); vp_free(marked);
	vp_assert(vp_live == 0, "the caller owns the message and nothing else is kept");
	char *at = strstr(tpl, "\x01\x01");
	if (code >= 0 && code < S_N && s_named[code]) vp_assert(at != NULL, "a message about a file names it");
	if (code >= 0 && code < S_N && s_about[code]) vp_assert(strstr(tpl, s_about[code]) != NULL, "a code has its own message");
	if (code < 0 || code > S_N) { char num[32]; sprintf(num, "%d", code); vp_assert(strstr(tpl, num) != NULL, "the message of an unknown code says which it is"); vp_assert(tpl[strlen(tpl) - 1] == '.', "a message is complete"); }
	if (code >= 0 && code < S_N - 1 && code != FIFTYONE_DEGREES_STATUS_NOT_SET) {
		for (int o = 0; o < S_N - 1; o++) if (o != code) { char *x = s_msg(o, "\x01\x01"); vp_assert(strcmp(x, tpl) != 0, "no two codes have the same message"); vp_free(x); }
		char *x = s_msg(-77, "\x01\x01"); char num[8]; sprintf(num, "%d", code); char *d = strstr(x, "-77"); vp_assert(d == NULL || strncmp(x, tpl, (size_t)(d - x)) != 0 || strncmp(tpl + (d - x), num, strlen(num)) != 0, "a known code has a message of its own"); vp_free(x);
	}
	char *want = vp_new(strlen(tpl) + 5001); const char *name = f == NULL ? "null" : f;
	if (at) { memcpy(want, tpl, (size_t)(at - tpl)); strcpy(want + (at - tpl), name); strcat(want, at + 2); } else strcpy(want, tpl);
	m[0] = s_msg(code, f);
	vp_assert(m[0] != NULL && strcmp(m[0], want) == 0, "the message has the file name in its place, and is complete");
	vp_assert(vp_live == 1, "a message is one allocation"); vp_free(m[0]);
	vp_use_allocator(); vp_fault_calls = 0; vp_fault_at = 1; vp_fault_sticky = vp_bool(); vp_faults = 0;
	m[1] = (char*)fiftyoneDegreesStatusGetMessage((fiftyoneDegreesStatusCode)code, f);
	vp_assert(m[1] == NULL && vp_live == 0, "there is no message without memory");
	free(tpl); free(want);
}
/* @unit exception_message_bounded
 * @property P14
 * @kind enum
 * @entry h_exception
 * @contracts fiftyoneDegreesExceptionGetMessage
 * @secs 60
 * @bound every status code and eight others, names of four kinds, ten line numbers, one failing allocation
 */
static void s_raise(fiftyoneDegreesException *exception, int code, const char **file, const char **func, int *line) { FIFTYONE_DEGREES_EXCEPTION_SET((fiftyoneDegreesStatusCode)code) *line = __LINE__; *file = __FILE__; *func = __func__; }
void h_exception(void) {
	static const char *files[] = { "", "f.c", "/a/long/path/with %s in it/file.c", "x" }; static const int lines[] = { 0, 1, 9, 10, 12345, 99999, 1000000, 2147483647, -1, -2147483647 - 1 };
	fiftyoneDegreesException ex; int code = s_code(), line = 0; const char *file, *func;
	memset(&ex, 0x5A, sizeof ex);
	s_raise(&ex, code, &file, &func, &line);
	vp_assert((int)ex.status == code && ex.line == line && strcmp(ex.file, file) == 0 && strcmp(ex.func, func) == 0, "raising an exception stores its code and origin");
	fiftyoneDegreesException *exception = &ex;
	vp_assert(FIFTYONE_DEGREES_EXCEPTION_OKAY == (code == FIFTYONE_DEGREES_STATUS_NOT_SET), "an exception is okay only when it is not set");
	s_raise(NULL, code, &file, &func, &line);
	FIFTYONE_DEGREES_EXCEPTION_CLEAR
	vp_assert(FIFTYONE_DEGREES_EXCEPTION_OKAY && ex.file == NULL && ex.func == NULL, "a cleared exception is okay");
	ex.status = (fiftyoneDegreesStatusCode)code; ex.file = files[vp_range(0, 3)]; ex.func = files[vp_range(0, 3)]; ex.line = lines[vp_range(0, 9)];
	char *st = s_msg(code, NULL); char *status = vp_new(strlen(st) + 1); strcpy(status, st); vp_free(st);
	char *want = vp_new(strlen(status) + 300);
	sprintf(want, "Message:  %s\r\nSource:   %s\r\nFunction: %s\r\nLine:     %d\r\n", status, ex.file, ex.func, ex.line);
	vp_use_allocator(); vp_fault_plan(3);
	char *m = (char*)fiftyoneDegreesExceptionGetMessage(&ex);
	if (vp_faults) vp_assert(m == NULL && vp_live == 0, "there is no message without memory");
	else { vp_assert(m != NULL && strcmp(m, want) == 0, "the message has the status text and the origin"); vp_assert(vp_live == 1, "the message is the only memory left"); vp_free(m); }
	free(status); free(want);
}
