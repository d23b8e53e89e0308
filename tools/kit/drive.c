/* drive CONF SCRIPT: feeds keystrokes to the engine. Script: +key -key N(ms) ... ; prints the output keys, "|" after every pause that printed something */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "keyd.h"

static int n;
static void send_key(uint8_t code, uint8_t state)
{
	printf("%s%c%s", n++ ? " " : "", state ? '+' : '-', keycode_table[code].name);
}
static void olc(const struct keyboard *kbd, const struct layer *layer, uint8_t active) {}
static int lookup(const char *s)
{
	for (int i = 0; i < 256; i++)
		if (keycode_table[i].name && !strcmp(keycode_table[i].name, s))
			return i;
	fprintf(stderr, "no key %s\n", s);
	exit(3);
}
int main(int argc, char **argv)
{
	static struct config config;
	struct output output = { .send_key = send_key, .on_layer_change = olc };
	struct keyboard *kbd;
	static struct key_event ev[20000];
	size_t sz = 0;
	long t = 100000;
	setvbuf(stdout, NULL, _IONBF, 0);
	FILE *devnull = stdout; (void)devnull;
	if (config_parse(&config, argv[1]))
		return 3;
	kbd = new_keyboard(&config, &output);
	char *tok;
	for (tok = strtok(argv[2], " \n"); tok; tok = strtok(NULL, " \n")) {
		if (*tok == '+' || *tok == '-') {
			ev[sz].code = lookup(tok + 1);
			ev[sz].pressed = *tok == '+';
			ev[sz++].timestamp = t;
		} else if (*tok == '=') {	/* bind request */
			char b[512]; size_t i;
			kbd_process_events(kbd, ev, sz); sz = 0;
			strncpy(b, tok + 1, sizeof b - 1);
			for (i = 0; b[i]; i++) if (b[i] == '~') b[i] = ' ';
			if (kbd_eval(kbd, b) < 0) printf("%srefused", n++ ? " " : "");
		} else
			t += atol(tok);
	}
	ev[sz++].timestamp = t + 1;
	kbd_process_events(kbd, ev, sz);
	printf("\n");
	return 0;
}
