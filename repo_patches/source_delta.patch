From 0b2d99314028d4de3d42112bceb0e1368ea93bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:55 +0000
Subject: [PATCH 01/70] fix: derive the next timeout from pending state

The table of scheduled timeouts overflowed (assertion failure) when more
than 64 were outstanding, kept entries of decisions which had long been
made, and dropped deadlines which passed while queued events were being
replayed, leaving the corresponding decision open until the next event.
---
 src/keyboard.c | 57 +++++++++++++++++++++++++-------------------------
 src/keyboard.h |  3 ---
 2 files changed, 28 insertions(+), 32 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 81ef40c..f465665 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -451,28 +451,40 @@ static void setlayout(struct keyboard *kbd, uint8_t idx)
 }
 
 
-static void schedule_timeout(struct keyboard *kbd, long timeout)
-{
-	assert(kbd->nr_timeouts < ARRAY_SIZE(kbd->timeouts));
-	kbd->timeouts[kbd->nr_timeouts++] = timeout;
-}
-
+/*
+ * Derive the next deadline from whatever is currently pending. Deadlines which
+ * have already passed (i.e while queued events were being replayed) are
+ * attended to shortly, but yield to events which have already taken place.
+ */
 static long calculate_main_loop_timeout(struct keyboard *kbd, long time)
 {
 	size_t i;
-	long timeout = 0;
 	size_t n = 0;
+	long timeout = 0;
+	long deadlines[4];
 
-	for (i = 0; i < kbd->nr_timeouts; i++)
-		if (kbd->timeouts[i] > time) {
-			if (!timeout || kbd->timeouts[i] < timeout)
-				timeout = kbd->timeouts[i];
+	if (kbd->pending_key.code)
+		deadlines[n++] = kbd->pending_key.expire;
 
-			kbd->timeouts[n++] = kbd->timeouts[i];
-		}
+	if (kbd->chord.state == CHORD_PENDING_DISAMBIGUATION)
+		deadlines[n++] = kbd->chord.last_code_time + kbd->config.chord_interkey_timeout;
+	else if (kbd->chord.state == CHORD_PENDING_HOLD_TIMEOUT)
+		deadlines[n++] = kbd->chord.last_code_time + kbd->config.chord_hold_timeout;
+
+	if (kbd->oneshot_timeout)
+		deadlines[n++] = kbd->oneshot_timeout;
 
-	kbd->nr_timeouts = n;
-	return timeout ? timeout - time : 0;
+	if (kbd->active_macro && kbd->macro_timeout > time)
+		deadlines[n++] = kbd->macro_timeout;
+
+	for (i = 0; i < n; i++) {
+		long remaining = deadlines[i] > time ? deadlines[i] - time : 2;
+
+		if (!timeout || remaining < timeout)
+			timeout = remaining;
+	}
+
+	return timeout;
 }
 
 static long process_descriptor(struct keyboard *kbd, uint8_t code,
@@ -578,8 +590,6 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 			kbd->pending_key.action2.op = OP_LAYER;
 			kbd->pending_key.action2.args[0].idx = layer;
 			kbd->pending_key.expire = time+d->args[2].timeout;
-
-			schedule_timeout(kbd, kbd->pending_key.expire);
 		}
 
 		break;
@@ -659,10 +669,8 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 		} else {
 			if (kbd->oneshot_latch) {
 				kbd->layer_state[idx].oneshot_depth++;
-				if (kbd->config.oneshot_timeout) {
+				if (kbd->config.oneshot_timeout)
 					kbd->oneshot_timeout = time + kbd->config.oneshot_timeout;
-					schedule_timeout(kbd, kbd->oneshot_timeout);
-				}
 			} else {
 				deactivate_layer(kbd, idx);
 				update_mods(kbd, -1, 0);
@@ -692,7 +700,6 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 			kbd->active_macro_layer = dl;
 
 			kbd->macro_timeout = time + timeout;
-			schedule_timeout(kbd, kbd->macro_timeout);
 		}
 
 		break;
@@ -722,8 +729,6 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 			kbd->pending_key.dl = dl;
 			kbd->pending_key.expire = time + d->args[1].timeout;
 			kbd->pending_key.behaviour = PK_INTERRUPT_ACTION1;
-
-			schedule_timeout(kbd, kbd->pending_key.expire);
 		}
 
 		break;
@@ -940,7 +945,6 @@ static int handle_chord(struct keyboard *kbd,
 			case 1:
 				kbd->chord.state = CHORD_PENDING_DISAMBIGUATION;
 				kbd->chord.last_code_time = time;
-				schedule_timeout(kbd, time + interkey_timeout);
 				return 1;
 			default:
 			case 2:
@@ -948,7 +952,6 @@ static int handle_chord(struct keyboard *kbd,
 
 				if (hold_timeout) {
 					kbd->chord.state = CHORD_PENDING_HOLD_TIMEOUT;
-					schedule_timeout(kbd, time + hold_timeout);
 				} else {
 					return resolve_chord(kbd);
 				}
@@ -960,7 +963,6 @@ static int handle_chord(struct keyboard *kbd,
 				if (kbd->chord.match) {
 					long timeleft = hold_timeout - interkey_timeout;
 					if (timeleft > 0) {
-						schedule_timeout(kbd, time + timeleft);
 						kbd->chord.state = CHORD_PENDING_HOLD_TIMEOUT;
 					} else {
 						return resolve_chord(kbd);
@@ -988,7 +990,6 @@ static int handle_chord(struct keyboard *kbd,
 				kbd->chord.last_code_time = time;
 
 				kbd->chord.state = CHORD_PENDING_DISAMBIGUATION;
-				schedule_timeout(kbd, time + interkey_timeout);
 				return 1;
 			default:
 			case 2:
@@ -996,7 +997,6 @@ static int handle_chord(struct keyboard *kbd,
 
 				if (hold_timeout) {
 					kbd->chord.state = CHORD_PENDING_HOLD_TIMEOUT;
-					schedule_timeout(kbd, time + hold_timeout);
 				} else {
 					return resolve_chord(kbd);
 				}
@@ -1142,7 +1142,6 @@ static long process_event(struct keyboard *kbd, uint8_t code, int pressed, long
 		} else if (time >= kbd->macro_timeout) {
 			execute_macro(kbd, kbd->active_macro_layer, kbd->active_macro);
 			kbd->macro_timeout = time+kbd->macro_repeat_interval;
-			schedule_timeout(kbd, kbd->macro_timeout);
 		}
 	}
 
diff --git a/src/keyboard.h b/src/keyboard.h
index dc94075..23a91d1 100644
--- a/src/keyboard.h
+++ b/src/keyboard.h
@@ -67,9 +67,6 @@ struct keyboard {
 
 	long last_simple_key_time;
 
-	long timeouts[64];
-	size_t nr_timeouts; 
-
 	struct active_chord {
 		uint8_t active;
 		struct chord chord;
-- 
2.43.0


From 602ac3cbb1577c0bdfba16a4b65877a3ace43c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:59 +0000
Subject: [PATCH 02/70] fix: let a timeout reach every pending decision

A timeout consumed by an open chord or tap/hold decision was withheld from
one-shots and macro repetition, which consequently expired late.
---
 src/keyboard.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index f465665..3f3abe2 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -1124,10 +1124,11 @@ static long process_event(struct keyboard *kbd, uint8_t code, int pressed, long
 	int dl = -1;
 	struct descriptor d;
 
-	if (handle_chord(kbd, code, pressed, time))
+	/* Timeouts (code 0) are of interest to everything which may be waiting. */
+	if (handle_chord(kbd, code, pressed, time) && code)
 		goto exit;
 
-	if (handle_pending_key(kbd, code, pressed, time))
+	if (handle_pending_key(kbd, code, pressed, time) && code)
 		goto exit;
 
 	if (kbd->oneshot_timeout && time >= kbd->oneshot_timeout) {
-- 
2.43.0


From d14dc1f164ce50e9aa66b9614b81a474d050e9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:04 +0000
Subject: [PATCH 03/70] fix: resolve a pending key when its event queue is full

More than 32 key events within the timeout tripped an assertion and
terminated the daemon.
---
 src/keyboard.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keyboard.c b/src/keyboard.c
index 3f3abe2..9e0e51e 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -1083,6 +1083,10 @@ int handle_pending_key(struct keyboard *kbd, uint8_t code, int pressed, long tim
 			}
 	}
 
+	/* Force a decision if there is no room for further events. */
+	if (!action.op && kbd->pending_key.queue_sz == ARRAY_SIZE(kbd->pending_key.queue))
+		action = kbd->pending_key.action2;
+
 	if (action.op) {
 		/* Create a copy of the queue on the stack to
 		   allow for recursive pending key processing. */
-- 
2.43.0


From dfb26c28fc72f7a82898fe5447d39cb3728b6de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:08 +0000
Subject: [PATCH 04/70] fix: abort a chord when its event queue is full

More than 32 key events within chord_hold_timeout tripped an assertion and
terminated the daemon.
---
 src/keyboard.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keyboard.c b/src/keyboard.c
index 9e0e51e..2581be9 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -1020,6 +1020,9 @@ static int handle_chord(struct keyboard *kbd,
 					return abort_chord(kbd);
 		}
 
+		if (kbd->chord.queue_sz == ARRAY_SIZE(kbd->chord.queue))
+			return abort_chord(kbd);
+
 		return 1;
 	}
 
-- 
2.43.0


From 44622f41961e42236bce7c48a1a3b4bd4e5471f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:13 +0000
Subject: [PATCH 05/70] fix: do not abort when more than three chords are held

The fourth simultaneous chord tripped an assertion and terminated the
daemon.
---
 src/keyboard.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 2581be9..9d67643 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -870,10 +870,11 @@ static int resolve_chord(struct keyboard *kbd)
 			}
 		}
 
-		assert(code);
-
-		queue_offset = chord->sz;
-		process_event(kbd, code, 1, kbd->chord.last_code_time);
+		/* If all chord slots are occupied, the keys act individually. */
+		if (code) {
+			queue_offset = chord->sz;
+			process_event(kbd, code, 1, kbd->chord.last_code_time);
+		}
 	}
 
 
-- 
2.43.0


From fd306da7a21133188d79aa30744d8c106236c1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 06/70] fix: count a key struck on two keyboards only once
 towards a chord

The same key on two keyboards sharing a config was counted as two keys of a
chord, which fired chords whose keys were not all struck, left keys stuck
and could overflow the event queue.
---
 src/keyboard.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/keyboard.c b/src/keyboard.c
index 9d67643..fa1b082 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -978,6 +978,11 @@ static int handle_chord(struct keyboard *kbd,
 			return 0;
 		}
 
+		/* Ignore successive key down events of the same key code (see process_event). */
+		for (i = 0; pressed && i < kbd->chord.queue_sz; i++)
+			if (kbd->chord.queue[i].code == code)
+				return 1;
+
 		enqueue_chord_event(kbd, code, pressed, time);
 
 		if (!pressed)
@@ -1011,6 +1016,10 @@ static int handle_chord(struct keyboard *kbd,
 			return 0;
 		}
 
+		for (i = 0; pressed && i < kbd->chord.match->sz; i++)
+			if (kbd->chord.match->keys[i] == code)
+				return 1;
+
 		enqueue_chord_event(kbd, code, pressed, time);
 
 		if (!pressed) {
-- 
2.43.0


From 5b1cac8ec25add895f14bce87fa53e8b90f47072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:08 +0000
Subject: [PATCH 07/70] fix: do not associate a toggled layer with the key
 which toggled it

A toggle key held while a swap was executed on the toggled layer was
converted into a layer key, the release of which deactivated an inactive
layer (assertion failure).
---
 src/keyboard.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index fa1b082..a3e6648 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -711,7 +711,7 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 			kbd->layer_state[idx].toggled = !kbd->layer_state[idx].toggled;
 
 			if (kbd->layer_state[idx].toggled)
-				activate_layer(kbd, code, idx);
+				activate_layer(kbd, 0, idx);
 			else
 				deactivate_layer(kbd, idx);
 
-- 
2.43.0


From 6cfe88760a276a312b649bc95520f3ca862db09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:13 +0000
Subject: [PATCH 08/70] fix: nested overloadi actions

The outer overloadi replaced the action selected by a nested one, so that
the release of the key did not undo what its press had done.
---
 src/keyboard.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index a3e6648..4b46ede 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -564,13 +564,14 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 			else
 				action = &kbd->config.descriptors[d->args[0].idx];
 
-			process_descriptor(kbd, code, action, dl, 1, time);
+			/* Must precede execution, since the action may itself update the cache. */
 			for (i = 0; i < CACHE_SIZE; i++) {
 				if (code == kbd->cache[i].code) {
 					kbd->cache[i].d = *action;
 					break;
 				}
 			}
+			process_descriptor(kbd, code, action, dl, 1, time);
 		}
 		break;
 	case OP_OVERLOAD_TIMEOUT_TAP:
-- 
2.43.0


From edd8bdff58fc99a53430443f0824a82e89508237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:17 +0000
Subject: [PATCH 09/70] fix: overload with a tap action which is itself a
 tap/hold action

The release of the synthesized tap was not seen by timeout(), overloadt()
and overloadi() actions, which consequently were held until their timeout
and never released.
---
 src/keyboard.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 4b46ede..2a28097 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -652,8 +652,17 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 					struct macro *macro = &kbd->config.macros[action->args[0].idx];
 					execute_macro(kbd, dl, macro);
 				} else {
+					/*
+					 * Synthesize a tap. The release has to go through the event
+					 * logic since the action may be an undecided one.
+					 */
+					cache_set(kbd, code, &(struct cache_entry) {
+						.d = *action,
+						.dl = dl,
+						.layer = 0,
+					});
 					process_descriptor(kbd, code, action, dl, 1, time);
-					process_descriptor(kbd, code, action, dl, 0, time);
+					process_event(kbd, code, 0, time);
 				}
 			}
 		}
-- 
2.43.0


From 42435ced0519f83249616b578791e8ec16dbb8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:43 +0000
Subject: [PATCH 10/70] fix: precedence of the first activated layer over the
 layout

The very first layer activation shared its activation time with the layout,
so a layout defined after the layer took precedence over it.
---
 src/keyboard.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 2a28097..fe91aa3 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -14,8 +14,8 @@ static long process_event(struct keyboard *kbd, uint8_t code, int pressed, long
 
 static long get_time()
 {
-	/* Close enough :/. Using a syscall is unnecessary. */
-	static long time = 1;
+	/* Close enough :/. Using a syscall is unnecessary. Layouts precede everything (see setlayout). */
+	static long time = 2;
 	return time++;
 }
 
-- 
2.43.0


From 3e1db6bc0f5391047a99053ae82011e65b2d68f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:48 +0000
Subject: [PATCH 11/70] fix: timestamps overflow after 25 days of uptime

Monotonic milliseconds do not fit into an int.
---
 src/daemon.c   | 4 ++--
 src/evloop.c   | 4 ++--
 src/keyboard.c | 6 +++---
 src/keyboard.h | 2 +-
 src/keyd.h     | 2 +-
 5 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index ab90b17..e4524ea 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -460,7 +460,7 @@ static void handle_client(int con)
 	}
 }
 
-static long process_keypress(struct keyboard *kbd, uint8_t code, int timestamp)
+static long process_keypress(struct keyboard *kbd, uint8_t code, long timestamp)
 {
 	struct key_event kev = {
 		.code = code,
@@ -476,7 +476,7 @@ static long process_keypress(struct keyboard *kbd, uint8_t code, int timestamp)
 
 static int event_handler(struct event *ev)
 {
-	static int last_time = 0;
+	static long last_time = 0;
 	static int timeout = 0;
 	struct key_event kev = {0};
 
diff --git a/src/evloop.c b/src/evloop.c
index 58e631a..ae5a31a 100644
--- a/src/evloop.c
+++ b/src/evloop.c
@@ -57,8 +57,8 @@ int evloop(int (*event_handler) (struct event *ev))
 	while (1) {
 		int removed = 0;
 
-		int start_time;
-		int elapsed;
+		long start_time;
+		long elapsed;
 
 		pfds[0].fd = monfd;
 		pfds[0].events = POLLIN;
diff --git a/src/keyboard.c b/src/keyboard.c
index fe91aa3..784cb38 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -492,7 +492,7 @@ static long process_descriptor(struct keyboard *kbd, uint8_t code,
 			       int pressed, long time)
 {
 	int i;
-	int timeout = 0;
+	long timeout = 0;
 
 	if (pressed) {
 		struct macro *macro;
@@ -1214,8 +1214,8 @@ exit:
 long kbd_process_events(struct keyboard *kbd, const struct key_event *events, size_t n)
 {
 	size_t i = 0;
-	int timeout = 0;
-	int timeout_ts = 0;
+	long timeout = 0;
+	long timeout_ts = 0;
 
 	while (i != n) {
 		const struct key_event *ev = &events[i];
diff --git a/src/keyboard.h b/src/keyboard.h
index 23a91d1..82c64f8 100644
--- a/src/keyboard.h
+++ b/src/keyboard.h
@@ -27,7 +27,7 @@ struct cache_entry {
 struct key_event {
 	uint8_t code;
 	uint8_t pressed;
-	int timestamp;
+	long timestamp;
 };
 
 struct output {
diff --git a/src/keyd.h b/src/keyd.h
index dbda395..2ab177b 100644
--- a/src/keyd.h
+++ b/src/keyd.h
@@ -66,7 +66,7 @@ struct event {
 	enum event_type type;
 	struct device *dev;
 	struct device_event *devev;
-	int timestamp;
+	long timestamp;
 	int fd;
 };
 
-- 
2.43.0


From 93d71d250f0c3d6496e8f08df137edc79de1b5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:52 +0000
Subject: [PATCH 12/70] fix: layer counters overflow after 256 one-shot taps

Tapping a one-shot key 256 times without typing anything in between wrapped
the activation count and tripped an assertion.
---
 src/keyboard.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keyboard.h b/src/keyboard.h
index 82c64f8..94d5cee 100644
--- a/src/keyboard.h
+++ b/src/keyboard.h
@@ -114,9 +114,9 @@ struct keyboard {
 	struct {
 		long activation_time;
 
-		uint8_t active;
+		size_t active;
 		uint8_t toggled;
-		uint8_t oneshot_depth;
+		size_t oneshot_depth;
 	} layer_state[MAX_LAYERS];
 
 	uint8_t keystate[256];
-- 
2.43.0


From 99e1a962cc39d4ac0f95facdb2a9e5051cfb2925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:40 +0000
Subject: [PATCH 13/70] fix: timeouts drift by the time spent processing events

Timeouts were counted from the next poll() rather than from the event which
caused them, so that time spent on macros or commands delayed them.
---
 src/evloop.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/evloop.c b/src/evloop.c
index ae5a31a..5253782 100644
--- a/src/evloop.c
+++ b/src/evloop.c
@@ -38,6 +38,7 @@ int evloop(int (*event_handler) (struct event *ev))
 {
 	size_t i;
 	int timeout = 0;
+	long deadline = 0;
 	int monfd;
 
 	struct pollfd pfds[MAX_DEVICES+MAX_AUX_FDS+1];
@@ -57,8 +58,7 @@ int evloop(int (*event_handler) (struct event *ev))
 	while (1) {
 		int removed = 0;
 
-		long start_time;
-		long elapsed;
+		long remaining = -1;
 
 		pfds[0].fd = monfd;
 		pfds[0].events = POLLIN;
@@ -73,18 +73,22 @@ int evloop(int (*event_handler) (struct event *ev))
 			pfds[i+device_table_sz+1].events = POLLIN | POLLERR;
 		}
 
-		start_time = get_time_ms();
-		poll(pfds, device_table_sz+nr_aux_fds+1, timeout > 0 ? timeout : -1);
+		if (deadline) {
+			remaining = deadline - get_time_ms();
+			if (remaining < 0)
+				remaining = 0;
+		}
+
+		poll(pfds, device_table_sz+nr_aux_fds+1, remaining);
 		ev.timestamp = get_time_ms();
-		elapsed = ev.timestamp - start_time;
 
-		if (timeout > 0 && elapsed >= timeout) {
+		if (deadline && ev.timestamp >= deadline) {
 			ev.type = EV_TIMEOUT;
 			ev.dev = NULL;
 			ev.devev = NULL;
 			timeout = event_handler(&ev);
 		} else {
-			timeout -= elapsed;
+			timeout = deadline ? deadline - ev.timestamp : 0;
 		}
 
 		for (i = 0; i < device_table_sz; i++) {
@@ -150,6 +154,8 @@ int evloop(int (*event_handler) (struct event *ev))
 			device_table_sz = n;
 		}
 
+		/* The timeout is relative to the time of the event, rather than to that of the next poll(). */
+		deadline = timeout > 0 ? ev.timestamp + timeout : 0;
 	}
 
 	return 0;
-- 
2.43.0


From 24a1cd9189ece88f016c0e4768ef0bf1ccb2885b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:45 +0000
Subject: [PATCH 14/70] fix: timeouts of one keyboard are lost when another one
 is used

There was a single timeout for all configs, which was delivered to the most
recently used one. Typing on one keyboard discarded a pending decision of
another until its next event.
---
 src/daemon.c   | 69 +++++++++++++++++++++++++++++---------------------
 src/keyboard.h |  3 +++
 2 files changed, 43 insertions(+), 29 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index e4524ea..53992f1 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -460,40 +460,55 @@ static void handle_client(int con)
 	}
 }
 
-static long process_keypress(struct keyboard *kbd, uint8_t code, long timestamp)
+static void process_key(struct keyboard *kbd, uint8_t code, uint8_t pressed, long timestamp)
 {
 	struct key_event kev = {
 		.code = code,
-		.pressed = 1,
+		.pressed = pressed,
 		.timestamp = timestamp
 	};
 
-	kbd_process_events(kbd, &kev, 1);
+	long timeout = kbd_process_events(kbd, &kev, 1);
 
-	kev.pressed = 0;
-	return kbd_process_events(kbd, &kev, 1);
+	kbd->deadline = timeout > 0 ? timestamp + timeout : 0;
 }
 
-static int event_handler(struct event *ev)
+static void process_keypress(struct keyboard *kbd, uint8_t code, long timestamp)
 {
-	static long last_time = 0;
-	static int timeout = 0;
-	struct key_event kev = {0};
+	process_key(kbd, code, 1, timestamp);
+	process_key(kbd, code, 0, timestamp);
+}
+
+/* The number of milliseconds until the next keyboard has to be serviced (0 if none). */
+static int next_timeout(long time)
+{
+	struct config_ent *ent;
+	long timeout = 0;
+
+	for (ent = configs; ent; ent = ent->next) {
+		long deadline = ent->kbd->deadline;
+
+		if (deadline) {
+			long remaining = deadline > time ? deadline - time : 1;
+
+			if (!timeout || remaining < timeout)
+				timeout = remaining;
+		}
+	}
 
-	timeout -= ev->timestamp - last_time;
-	last_time = ev->timestamp;
+	return timeout;
+}
 
-	timeout = timeout < 0 ? 0 : timeout;
+static int event_handler(struct event *ev)
+{
+	struct config_ent *ent;
 
 	switch (ev->type) {
 	case EV_TIMEOUT:
-		if (!active_kbd)
-			return 0;
-
-		kev.code = 0;
-		kev.timestamp = ev->timestamp;
+		for (ent = configs; ent; ent = ent->next)
+			if (ent->kbd->deadline && ent->kbd->deadline <= ev->timestamp)
+				process_key(ent->kbd, 0, 0, ev->timestamp);
 
-		timeout = kbd_process_events(active_kbd, &kev, 1);
 		break;
 	case EV_DEV_EVENT:
 		if (ev->dev->data) {
@@ -504,11 +519,7 @@ static int event_handler(struct event *ev)
 			case DEV_KEY:
 				dbg("input %s %s", KEY_NAME(ev->devev->code), ev->devev->pressed ? "down" : "up");
 
-				kev.code = ev->devev->code;
-				kev.pressed = ev->devev->pressed;
-				kev.timestamp = ev->timestamp;
-
-				timeout = kbd_process_events(kbd, &kev, 1);
+				process_key(kbd, ev->devev->code, ev->devev->pressed, ev->timestamp);
 				break;
 			case DEV_MOUSE_MOVE:
 				if (kbd->scroll.active) {
@@ -538,16 +549,16 @@ static int event_handler(struct event *ev)
 				if (active_kbd) {
 					if (ev->devev->x > 0)
 						for (i = 0;i < (size_t)ev->devev->x; i++)
-							timeout = process_keypress(active_kbd, KEYD_SCROLL_RIGHT, ev->timestamp);
+							process_keypress(active_kbd, KEYD_SCROLL_RIGHT, ev->timestamp);
 					if (ev->devev->x < 0)
 						for (i = 0;i < (size_t)-1*ev->devev->x; i++)
-							timeout = process_keypress(active_kbd, KEYD_SCROLL_LEFT, ev->timestamp);
+							process_keypress(active_kbd, KEYD_SCROLL_LEFT, ev->timestamp);
 					if (ev->devev->y > 0)
 						for (i = 0;i < (size_t)ev->devev->y; i++)
-							timeout = process_keypress(active_kbd, KEYD_SCROLL_UP, ev->timestamp);
+							process_keypress(active_kbd, KEYD_SCROLL_UP, ev->timestamp);
 					if (ev->devev->y < 0)
 						for (i = 0;i < (size_t)-1*ev->devev->y; i++)
-							timeout = process_keypress(active_kbd, KEYD_SCROLL_DOWN, ev->timestamp);
+							process_keypress(active_kbd, KEYD_SCROLL_DOWN, ev->timestamp);
 				}
 				break;
 			default:
@@ -555,7 +566,7 @@ static int event_handler(struct event *ev)
 			}
 		} else if (!ev->dev->is_virtual && ev->dev->capabilities & CAP_MOUSE) {
 			if (active_kbd && (ev->devev->type == DEV_KEY || ev->devev->type == DEV_MOUSE_SCROLL))
-				timeout = process_keypress(active_kbd, KEYD_EXTERNAL_MOUSE_BUTTON, ev->timestamp);
+				process_keypress(active_kbd, KEYD_EXTERNAL_MOUSE_BUTTON, ev->timestamp);
 		} else if (ev->dev->is_virtual && ev->devev->type == DEV_LED) {
 			size_t i;
 
@@ -593,7 +604,7 @@ static int event_handler(struct event *ev)
 		break;
 	}
 
-	return timeout;
+	return next_timeout(ev->timestamp);
 }
 
 int run_daemon(int argc, char *argv[])
diff --git a/src/keyboard.h b/src/keyboard.h
index 94d5cee..db27d17 100644
--- a/src/keyboard.h
+++ b/src/keyboard.h
@@ -121,6 +121,9 @@ struct keyboard {
 
 	uint8_t keystate[256];
 
+	/* Reserved for the user: the time by which the next call is due (0 if none). */
+	long deadline;
+
 	struct {
 		int x;
 		int y;
-- 
2.43.0


From 8a1f709778dd58123ad7f3cf11a682709140c6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:11 +0000
Subject: [PATCH 15/70] fix: use after free following a reload

active_kbd was left pointing to a keyboard which had been freed.
---
 src/daemon.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/daemon.c b/src/daemon.c
index 53992f1..d92d169 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -283,6 +283,9 @@ static void reload()
 {
 	size_t i;
 
+	/* Refers to one of the old configs. */
+	active_kbd = NULL;
+
 	free_configs();
 	load_configs();
 
-- 
2.43.0


From 4508181c3d07f738abea5e019f0ef7748787c677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:15 +0000
Subject: [PATCH 16/70] fix: uninitialized timestamp of the initial device
 events

The first event printed by monitor -t was preceded by a bogus time.
---
 src/evloop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evloop.c b/src/evloop.c
index 5253782..caabe24 100644
--- a/src/evloop.c
+++ b/src/evloop.c
@@ -43,7 +43,7 @@ int evloop(int (*event_handler) (struct event *ev))
 
 	struct pollfd pfds[MAX_DEVICES+MAX_AUX_FDS+1];
 
-	struct event ev;
+	struct event ev = { .timestamp = get_time_ms() };
 
 	monfd = devmon_create();
 	device_table_sz = device_scan(device_table);
-- 
2.43.0


From f425b0d78fc7395803fc3197abfabd6be653506c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:19 +0000
Subject: [PATCH 17/70] fix: spurious and missed panic sequences

Mouse and LED events were interpreted as key events, a key held on a device
which vanished was considered to be held for good, and a key held on two
keyboards was considered released as soon as one of them released it.
---
 src/device.c |  4 ++++
 src/device.h |  3 +++
 src/evloop.c | 29 ++++++++++++++++-------------
 3 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/device.c b/src/device.c
index b72c8a7..fd8aae9 100644
--- a/src/device.c
+++ b/src/device.c
@@ -185,6 +185,7 @@ static int device_init(const char *path, struct device *dev)
 		dev->capabilities = capabilities;
 		dev->data = NULL;
 		dev->grabbed = 0;
+		memset(dev->keystate, 0, sizeof dev->keystate);
 
 		dev->is_virtual = info.vendor == 0x0FAC;
 		return 0;
@@ -359,6 +360,9 @@ int device_grab(struct device *dev)
 	while (read(dev->fd, &ev, sizeof(ev)) > 0) {
 	}
 
+	/* Nothing was held at the time of the grab. */
+	memset(dev->keystate, 0, sizeof dev->keystate);
+
 	dev->grabbed = 1;
 	return 0;
 }
diff --git a/src/device.h b/src/device.h
index 0a12699..423f015 100644
--- a/src/device.h
+++ b/src/device.h
@@ -25,6 +25,9 @@ struct device {
 	uint8_t capabilities;
 	uint8_t is_virtual;
 
+	/* Keys which are currently held (maintained by the event loop). */
+	uint8_t keystate[256];
+
 	char id[64];
 	char name[64];
 	char path[256];
diff --git a/src/evloop.c b/src/evloop.c
index caabe24..724d74c 100644
--- a/src/evloop.c
+++ b/src/evloop.c
@@ -8,19 +8,19 @@ static size_t nr_aux_fds = 0;
 struct device device_table[MAX_DEVICES];
 size_t device_table_sz;
 
-static void panic_check(uint8_t code, uint8_t pressed)
+static void panic_check()
 {
-	static uint8_t enter, backspace, escape;
-	switch (code) {
-	case KEYD_ENTER:
-		enter = pressed;
-		break;
-	case KEYD_BACKSPACE:
-		backspace = pressed;
-		break;
-	case KEYD_ESC:
-		escape = pressed;
-		break;
+	size_t i;
+	uint8_t enter = 0, backspace = 0, escape = 0;
+
+	for (i = 0; i < device_table_sz; i++) {
+		/* Vanished devices no longer hold anything. */
+		if (device_table[i].fd == -1)
+			continue;
+
+		enter |= device_table[i].keystate[KEYD_ENTER];
+		backspace |= device_table[i].keystate[KEYD_BACKSPACE];
+		escape |= device_table[i].keystate[KEYD_ESC];
 	}
 
 	if (backspace && enter && escape)
@@ -107,7 +107,10 @@ int evloop(int (*event_handler) (struct event *ev))
 						break;
 					} else {
 						//Handle device event
-						panic_check(devev->code, devev->pressed);
+						if (devev->type == DEV_KEY) {
+							device_table[i].keystate[devev->code] = devev->pressed;
+							panic_check();
+						}
 
 						ev.type = EV_DEV_EVENT;
 						ev.devev = devev;
-- 
2.43.0


From 79c12ee8c6b52f443d7614f7097ba7ea1c881e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:24 +0000
Subject: [PATCH 18/70] fix: file descriptor leak on device removal

---
 src/device.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/device.c b/src/device.c
index fd8aae9..8c2ca22 100644
--- a/src/device.c
+++ b/src/device.c
@@ -396,6 +396,7 @@ struct device_event *device_read_event(struct device *dev)
 		if (errno == EAGAIN) {
 			return NULL;
 		} else {
+			close(dev->fd);
 			dev->fd = -1;
 			devev.type = DEV_REMOVED;
 			return &devev;
-- 
2.43.0


From 28b8da7c3acecdbc27b0a652ca4a836c4dc0bf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:29 +0000
Subject: [PATCH 19/70] fix: keys held on a device which is removed remain
 stuck

---
 src/daemon.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/daemon.c b/src/daemon.c
index d92d169..93c4d34 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -591,6 +591,15 @@ static int event_handler(struct event *ev)
 	case EV_DEV_REMOVE:
 		keyd_log("DEVICE: r{removed}\t%s %s\n", ev->dev->id, ev->dev->name);
 
+		/* Release whatever the device was holding. */
+		if (ev->dev->data) {
+			size_t i;
+
+			for (i = 1; i < 256; i++)
+				if (ev->dev->keystate[i])
+					process_key(ev->dev->data, i, 0, ev->timestamp);
+		}
+
 		break;
 	case EV_FD_ACTIVITY:
 		if (ev->fd == ipcfd) {
-- 
2.43.0


From 0ff66ab88958e289c8d53fb2323186ff64134ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:56 +0000
Subject: [PATCH 20/70] fix: do not terminate if an LED of a vanished device is
 set

---
 src/device.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/device.c b/src/device.c
index 8c2ca22..24c749f 100644
--- a/src/device.c
+++ b/src/device.c
@@ -588,5 +588,7 @@ void device_set_led(const struct device *dev, int led, int state)
 		.value = state
 	};
 
-	xwrite(dev->fd, &ev, sizeof ev);
+	/* The device may have vanished, in which case the event loop will take care of it. */
+	if (write(dev->fd, &ev, sizeof ev) < 0)
+		dbg("failed to set led of %s", dev->path);
 }
-- 
2.43.0


From 511fe13052717a2533c5ff0e13658c8c6d9b8feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:00 +0000
Subject: [PATCH 21/70] fix: unsupported absolute axes repeat the previous
 event

The event structure retained the last event, which was consequently
processed again for every event of an unsupported axis.
---
 src/device.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/device.c b/src/device.c
index 24c749f..adfed69 100644
--- a/src/device.c
+++ b/src/device.c
@@ -458,7 +458,7 @@ struct device_event *device_read_event(struct device *dev)
 			break;
 		default:
 			dbg("Unrecognized EV_ABS code: %x", ev.code);
-			break;
+			return NULL;
 		}
 
 		break;
-- 
2.43.0


From 73b353d5b2863c2d7186854e67ea4cdcbd842ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:52 +0000
Subject: [PATCH 22/70] fix: touch and stylus contacts produce unrelated key
 strokes

Tool codes were silently truncated to 8 bits (e.g BTN_TOUCH acted as keypad
minus). Treat them like any other contact with a pointing device.
---
 src/device.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/device.c b/src/device.c
index adfed69..7e01fcd 100644
--- a/src/device.c
+++ b/src/device.c
@@ -555,6 +555,9 @@ struct device_event *device_read_event(struct device *dev)
 						keyd_log("r{ERROR:} unsupported evdev code: 0x%x\n", ev.code);
 						return NULL;
 					}
+
+					/* Contact with the device, rather than a key. */
+					ev.code = KEYD_EXTERNAL_MOUSE_BUTTON;
 			}
 		}
 
-- 
2.43.0


From 2dbf686651460d9ee725b223ad44d225c4caad37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:56 +0000
Subject: [PATCH 23/70] fix: division by zero for absolute axes without a range

Negative values were furthermore mangled by unsigned arithmetic.
---
 src/device.c | 11 +++++++++--
 src/device.h |  8 ++++----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/device.c b/src/device.c
index 7e01fcd..21a214f 100644
--- a/src/device.c
+++ b/src/device.c
@@ -380,6 +380,13 @@ int device_ungrab(struct device *dev)
 	}
 }
 
+static int32_t scale_abs(int32_t value, int32_t min, int32_t max)
+{
+	int64_t range = (int64_t)max - min;
+
+	return range > 0 ? ((int64_t)value * 1024) / range : 0;
+}
+
 /*
  * Read a device event from the given device or return
  * NULL if none are available (may happen in the
@@ -446,13 +453,13 @@ struct device_event *device_read_event(struct device *dev)
 		switch (ev.code) {
 		case ABS_X:
 			devev.type = DEV_MOUSE_MOVE_ABS;
-			devev.x = (ev.value * 1024) / (dev->_maxx - dev->_minx);
+			devev.x = scale_abs(ev.value, dev->_minx, dev->_maxx);
 			devev.y = 0;
 
 			break;
 		case ABS_Y:
 			devev.type = DEV_MOUSE_MOVE_ABS;
-			devev.y = (ev.value * 1024) / (dev->_maxy - dev->_miny);
+			devev.y = scale_abs(ev.value, dev->_miny, dev->_maxy);
 			devev.x = 0;
 
 			break;
diff --git a/src/device.h b/src/device.h
index 423f015..e070fb6 100644
--- a/src/device.h
+++ b/src/device.h
@@ -33,10 +33,10 @@ struct device {
 	char path[256];
 
 	/* Internal. */
-	uint32_t _maxx;
-	uint32_t _maxy;
-	uint32_t _minx;
-	uint32_t _miny;
+	int32_t _maxx;
+	int32_t _maxy;
+	int32_t _minx;
+	int32_t _miny;
 
 	/* Reserved for the user. */
 	void *data;
-- 
2.43.0


From a8a431f98dba6d210d13c1a91b0c246df78bafa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:00 +0000
Subject: [PATCH 24/70] fix: file descriptor leak for devices which cannot be
 probed

---
 src/device.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/device.c b/src/device.c
index 21a214f..c112aa4 100644
--- a/src/device.c
+++ b/src/device.c
@@ -136,13 +136,15 @@ static int device_init(const char *path, struct device *dev)
 	capabilities = resolve_device_capabilities(fd, &num_keys, &relmask, &absmask);
 
 	if (ioctl(fd, EVIOCGNAME(sizeof(dev->name)), dev->name) == -1) {
-		keyd_log("ERROR: could not fetch device name of %s\n", dev->path);
+		keyd_log("ERROR: could not fetch device name of %s\n", path);
+		close(fd);
 		return -1;
 	}
 
 	if (capabilities & CAP_MOUSE_ABS) {
 		if (ioctl(fd, EVIOCGABS(ABS_X), &absinfo) < 0) {
 			perror("ioctl");
+			close(fd);
 			return -1;
 		}
 
@@ -151,6 +153,7 @@ static int device_init(const char *path, struct device *dev)
 
 		if (ioctl(fd, EVIOCGABS(ABS_Y), &absinfo) < 0) {
 			perror("ioctl");
+			close(fd);
 			return -1;
 		}
 
@@ -165,6 +168,7 @@ static int device_init(const char *path, struct device *dev)
 
 		if (ioctl(fd, EVIOCGID, &info) == -1) {
 			perror("ioctl EVIOCGID");
+			close(fd);
 			return -1;
 		}
 
-- 
2.43.0


From 09e0fb847a74cb21cb29a83b285bd66522a0eaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:05 +0000
Subject: [PATCH 25/70] fix: unterminated device names

EVIOCGNAME does not terminate names which do not fit.
---
 src/device.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/device.c b/src/device.c
index c112aa4..54b5c98 100644
--- a/src/device.c
+++ b/src/device.c
@@ -141,6 +141,9 @@ static int device_init(const char *path, struct device *dev)
 		return -1;
 	}
 
+	/* The kernel truncates long names without terminating them. */
+	dev->name[sizeof(dev->name)-1] = 0;
+
 	if (capabilities & CAP_MOUSE_ABS) {
 		if (ioctl(fd, EVIOCGABS(ABS_X), &absinfo) < 0) {
 			perror("ioctl");
-- 
2.43.0


From 1df1a1bc722042ba8db0af4a21a9ee955c1e03c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:09 +0000
Subject: [PATCH 26/70] fix: do not abort when there are more than 64 devices

---
 src/device.c | 6 +++++-
 src/evloop.c | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/device.c b/src/device.c
index 54b5c98..6a2d7e2 100644
--- a/src/device.c
+++ b/src/device.c
@@ -234,7 +234,11 @@ int device_scan(struct device devices[MAX_DEVICES])
 
 	while((ent = readdir(dh))) {
 		if (ent->d_type != DT_DIR && !strncmp(ent->d_name, "event", 5)) {
-			assert(n < MAX_DEVICES);
+			if (n == MAX_DEVICES) {
+				keyd_log("r{ERROR:} too many devices, ignoring %s\n", ent->d_name);
+				continue;
+			}
+
 			struct device_worker *w = &workers[n++];
 
 			snprintf(w->path, sizeof(w->path), "/dev/input/%s", ent->d_name);
diff --git a/src/evloop.c b/src/evloop.c
index 724d74c..9031c48 100644
--- a/src/evloop.c
+++ b/src/evloop.c
@@ -138,7 +138,12 @@ int evloop(int (*event_handler) (struct event *ev))
 			struct device dev;
 
 			while (devmon_read_device(monfd, &dev) == 0) {
-				assert(device_table_sz < MAX_DEVICES);
+				if (device_table_sz == MAX_DEVICES) {
+					keyd_log("r{ERROR:} too many devices, ignoring %s\n", dev.path);
+					close(dev.fd);
+					continue;
+				}
+
 				device_table[device_table_sz++] = dev;
 
 				ev.type = EV_DEV_ADD;
-- 
2.43.0


From f1701a5de70350fae1f1ddb6d77aed5c9667ea18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:21 +0000
Subject: [PATCH 27/70] fix: do not let IPC clients stall or terminate the
 daemon

A client which disconnected early or did not send a complete message caused
the daemon to exit or to block indefinitely, at the expense of the
keyboard.
---
 src/daemon.c | 58 +++++++++++++++++++++++++++++++++++++++++++++++-----
 src/util.c   |  4 ++++
 2 files changed, 57 insertions(+), 5 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index 93c4d34..07dd7b6 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -86,7 +86,8 @@ static void add_listener(int con)
 
 	if (nr_listeners == ARRAY_SIZE(listeners)) {
 		char s[] = "Max listeners exceeded\n";
-		xwrite(con, &s, sizeof s);
+		if (write(con, s, sizeof(s)-1) < 0)
+			keyd_log("y{WARNING:} failed to reply to client\n");
 
 		close(con);
 		return;
@@ -295,6 +296,49 @@ static void reload()
 	clear_vkbd();
 }
 
+/*
+ * Clients must not be able to stall or terminate the daemon, so the exchange is
+ * bounded and errors are confined to the connection in question.
+ */
+static int read_message(int con, struct ipc_message *msg)
+{
+	const long limit = 100;
+	size_t nrd = 0;
+	struct timespec start, now;
+
+	clock_gettime(CLOCK_MONOTONIC, &start);
+
+	while (nrd != sizeof *msg) {
+		ssize_t n;
+		long elapsed;
+		struct pollfd pfd = { .fd = con, .events = POLLIN };
+
+		clock_gettime(CLOCK_MONOTONIC, &now);
+		elapsed = (now.tv_sec - start.tv_sec) * 1000 + (now.tv_nsec - start.tv_nsec) / 1000000;
+
+		if (elapsed >= limit || poll(&pfd, 1, limit - elapsed) <= 0)
+			return -1;
+
+		n = read(con, (char *)msg + nrd, sizeof *msg - nrd);
+		if (n <= 0)
+			return -1;
+
+		nrd += n;
+	}
+
+	return 0;
+}
+
+static void send_message(int con, const struct ipc_message *msg)
+{
+	const struct timeval tv = { .tv_usec = 50000 };
+
+	setsockopt(con, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv);
+
+	if (write(con, msg, sizeof *msg) != sizeof *msg)
+		keyd_log("y{WARNING:} failed to reply to client\n");
+}
+
 static void send_success(int con)
 {
 	struct ipc_message msg = {0};
@@ -302,7 +346,7 @@ static void send_success(int con)
 	msg.type = IPC_SUCCESS;;
 	msg.sz = 0;
 
-	xwrite(con, &msg, sizeof msg);
+	send_message(con, &msg);
 	close(con);
 }
 
@@ -316,7 +360,7 @@ static void send_fail(int con, const char *fmt, ...)
 	msg.type = IPC_FAIL;
 	msg.sz = vsnprintf(msg.data, sizeof(msg.data), fmt, args);
 
-	xwrite(con, &msg, sizeof msg);
+	send_message(con, &msg);
 	close(con);
 
 	va_end(args);
@@ -391,7 +435,11 @@ static void handle_client(int con)
 {
 	struct ipc_message msg;
 
-	xread(con, &msg, sizeof msg);
+	if (read_message(con, &msg)) {
+		keyd_log("y{WARNING:} failed to read client message\n");
+		close(con);
+		return;
+	}
 
 	if (msg.sz >= sizeof(msg.data)) {
 		send_fail(con, "maximum message size exceeded");
@@ -606,7 +654,7 @@ static int event_handler(struct event *ev)
 			int con = accept(ipcfd, NULL, 0);
 			if (con < 0) {
 				perror("accept");
-				exit(-1);
+				break;
 			}
 
 			handle_client(con);
diff --git a/src/util.c b/src/util.c
index 8e35ec5..061f2b5 100644
--- a/src/util.c
+++ b/src/util.c
@@ -26,6 +26,10 @@ void xread(int fd, void *buf, size_t sz)
 			perror("read");
 			exit(-1);
 		}
+		if (n == 0) {
+			fprintf(stderr, "ERROR: connection closed\n");
+			exit(-1);
+		}
 		nrd += n;
 	}
 }
-- 
2.43.0


From 03b26b843e6682a350676a34d46906d8e4cd9046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:47 +0000
Subject: [PATCH 28/70] fix: do not leak descriptors to commands

A running command inherited the lock (preventing keyd from being restarted)
as well as the socket and its clients.
---
 src/daemon.c | 1 +
 src/ipc.c    | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index 07dd7b6..e9235d9 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -657,6 +657,7 @@ static int event_handler(struct event *ev)
 				break;
 			}
 
+			fcntl(con, F_SETFD, FD_CLOEXEC);
 			handle_client(con);
 		}
 		break;
diff --git a/src/ipc.c b/src/ipc.c
index e6cbe43..53d9b53 100644
--- a/src/ipc.c
+++ b/src/ipc.c
@@ -47,7 +47,7 @@ int ipc_connect()
 int ipc_create_server()
 {
 	char lockpath[PATH_MAX];
-	int sd = socket(AF_UNIX, SOCK_STREAM, 0);
+	int sd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
 	int lfd;
 	struct sockaddr_un addr = {0};
 
@@ -60,7 +60,7 @@ int ipc_create_server()
 	addr.sun_family = AF_UNIX;
 	strncpy(addr.sun_path, SOCKET_PATH, sizeof(addr.sun_path)-1);
 	snprintf(lockpath, sizeof lockpath, "%s.lock", SOCKET_PATH);
-	lfd = open(lockpath, O_CREAT | O_RDONLY, 0600);
+	lfd = open(lockpath, O_CREAT | O_RDONLY | O_CLOEXEC, 0600);
 
 	if (lfd < 0) {
 		perror("open");
-- 
2.43.0


From 5daa63589ebca939608353c4bf625694f989b7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:50 +0000
Subject: [PATCH 29/70] fix: the socket is briefly accessible to everybody

Its mode was only restricted after it had started accepting connections.
---
 src/ipc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ipc.c b/src/ipc.c
index 53d9b53..84f1e6d 100644
--- a/src/ipc.c
+++ b/src/ipc.c
@@ -49,6 +49,7 @@ int ipc_create_server()
 	char lockpath[PATH_MAX];
 	int sd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
 	int lfd;
+	mode_t mask;
 	struct sockaddr_un addr = {0};
 
 	chgid();
@@ -71,10 +72,13 @@ int ipc_create_server()
 		return -1;
 
 	unlink(SOCKET_PATH);
+
+	mask = umask(0117);
 	if (bind(sd, (struct sockaddr *) &addr, sizeof addr) < 0) {
 		fprintf(stderr, "failed to bind to socket %s\n", SOCKET_PATH);
 		exit(-1);
 	}
+	umask(mask);
 
 	if (listen(sd, 20) < 0) {
 		perror("listen");
-- 
2.43.0


From 8f4bcc1afa3bed5f47dd71d6eb1c7bbed95f903d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:54 +0000
Subject: [PATCH 30/70] fix: data race on the log buffer

Devices are probed by several threads, all of which used the same buffer.
The buffer also lacked room for its terminator.
---
 src/log.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/log.c b/src/log.c
index f326631..65d2078 100644
--- a/src/log.c
+++ b/src/log.c
@@ -11,15 +11,15 @@ char errstr[2048];
 int log_level = 0;
 int suppress_colours = 0;
 
-static const char *colorize(const char *s)
+/* NOTE: may be called by several threads at once (see device_scan()). */
+static const char *colorize(char *buf, size_t sz, const char *s)
 {
 	int i;
 
-	static char buf[1024];
 	size_t n  = 0;
 	int inside_escape = 0;
 
-	for (i = 0; s[i] != 0 && n < sizeof(buf); i++) {
+	for (i = 0; s[i] != 0 && n < sz-1; i++) {
 		if (s[i+1] == '{') {
 			int escape_num = 0;
 
@@ -35,7 +35,7 @@ static const char *colorize(const char *s)
 			}
 
 			if (escape_num) {
-				if (!suppress_colours && (sizeof(buf)-n > 5)) {
+				if (!suppress_colours && (sz-n > 5)) {
 					buf[n++] = '\033';
 					buf[n++] = '[';
 					buf[n++] = '3';
@@ -51,7 +51,7 @@ static const char *colorize(const char *s)
 		}
 
 		if (s[i] == '}' && inside_escape) {
-			if (!suppress_colours && (sizeof(buf)-n > 4)) {
+			if (!suppress_colours && (sz-n > 4)) {
 				memcpy(buf+n, "\033[0m", 4);
 				n += 4;
 			}
@@ -69,11 +69,13 @@ static const char *colorize(const char *s)
 }
 
 void die(const char *fmt, ...) {
-	fprintf(stderr, "%s", colorize("r{FATAL ERROR:} "));
+	char buf[1024];
+
+	fprintf(stderr, "%s", colorize(buf, sizeof buf, "r{FATAL ERROR:} "));
 
 	va_list ap;
 	va_start(ap, fmt);
-	vfprintf(stderr, colorize(fmt), ap);
+	vfprintf(stderr, colorize(buf, sizeof buf, fmt), ap);
 	va_end(ap);
 	fprintf(stderr, "\n");
 
@@ -85,8 +87,9 @@ void _keyd_log(int level, const char *fmt, ...)
 	if (level > log_level)
 		return;
 
+	char buf[1024];
 	va_list ap;
 	va_start(ap, fmt);
-	vprintf(colorize(fmt), ap);
+	vprintf(colorize(buf, sizeof buf, fmt), ap);
 	va_end(ap);
 }
-- 
2.43.0


From 0664bb16491b7d098c83da3be7a65f4b031c614e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:15 +0000
Subject: [PATCH 31/70] fix: voicecommand is discarded by the kernel

The virtual keyboard did not announce the key.
---
 src/vkbd/uinput.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vkbd/uinput.c b/src/vkbd/uinput.c
index cb43c65..f856107 100644
--- a/src/vkbd/uinput.c
+++ b/src/vkbd/uinput.c
@@ -84,6 +84,11 @@ static int create_virtual_keyboard(const char *name)
 		exit(-1);
 	}
 
+	if (ioctl(fd, UI_SET_KEYBIT, KEY_VOICECOMMAND)) {
+		perror("ioctl set_keybit");
+		exit(-1);
+	}
+
 	udev.id.bustype = BUS_USB;
 	udev.id.vendor = 0x0FAC;
 	udev.id.product = 0x0ADE;
-- 
2.43.0


From 53b000824addb3ff4dc4d334bcc95fe4ef150008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:20 +0000
Subject: [PATCH 32/70] fix: the fn key is emitted as an unassigned key code

KEY_FN does not fit into 8 bits and has to be translated back on output.
---
 src/vkbd/uinput.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/vkbd/uinput.c b/src/vkbd/uinput.c
index f856107..fb2e402 100644
--- a/src/vkbd/uinput.c
+++ b/src/vkbd/uinput.c
@@ -89,6 +89,11 @@ static int create_virtual_keyboard(const char *name)
 		exit(-1);
 	}
 
+	if (ioctl(fd, UI_SET_KEYBIT, KEY_FN)) {
+		perror("ioctl set_keybit");
+		exit(-1);
+	}
+
 	udev.id.bustype = BUS_USB;
 	udev.id.vendor = 0x0FAC;
 	udev.id.product = 0x0ADE;
@@ -186,6 +191,7 @@ static void write_key_event(const struct vkbd *vkbd, uint8_t code, int state)
 		case KEYD_MOUSE_FORWARD: ev.code = BTN_FORWARD; break;
 		case KEYD_ZOOM:		 ev.code = KEY_ZOOM; is_btn = 0; break;
 		case KEYD_VOICECOMMAND: ev.code = KEY_VOICECOMMAND; is_btn = 0; break;
+		case KEYD_FN:		 ev.code = KEY_FN; is_btn = 0; break;
 		default:
 			ev.code = code;
 			is_btn = 0;
-- 
2.43.0


From 8c81fd3b1c513ba81be3b7a84a04d8853c81afe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:45 +0000
Subject: [PATCH 33/70] fix: out of bounds accesses and glued lines when
 reading config files

---
 src/config.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/config.c b/src/config.c
index 74383aa..d94bf1c 100644
--- a/src/config.c
+++ b/src/config.c
@@ -123,16 +123,21 @@ static char *read_file(const char *path)
 	while (fgets(line, sizeof line, fh)) {
 		int len = strlen(line);
 
+		/* A line which starts with a NUL byte has no content. */
+		if (!len)
+			continue;
+
 		if (line[len-1] != '\n') {
 			if (len >= MAX_LINE_LEN) {
 				err("maximum line length exceed (%d)", MAX_LINE_LEN);
 				goto fail;
 			} else {
 				line[len++] = '\n';
+				line[len] = 0;
 			}
 		}
 
-		if ((len+sz) > MAX_FILE_SZ) {
+		if ((len+sz) >= MAX_FILE_SZ) {
 			err("maximum file size exceed (%d)", MAX_FILE_SZ);
 			goto fail;
 		}
@@ -161,9 +166,13 @@ static char *read_file(const char *path)
 				perror("open");
 			} else {
 				int n;
-				while ((n = read(fd, buf+sz, sizeof(buf)-sz)) > 0)
+				while ((n = read(fd, buf+sz, sizeof(buf)-sz-1)) > 0)
 					sz += n;
 				close(fd);
+
+				/* Keep the next line from being glued to the last one. */
+				if (sz && buf[sz-1] != '\n' && sz < (int)sizeof(buf)-1)
+					buf[sz++] = '\n';
 			}
 		} else {
 			strcpy(buf+sz, line);
-- 
2.43.0


From 7d783560867f04c46545f22e69a3d49b54929406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:50 +0000
Subject: [PATCH 34/70] fix: crash on section headers without a name

---
 src/config.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/config.c b/src/config.c
index d94bf1c..2dfa53e 100644
--- a/src/config.c
+++ b/src/config.c
@@ -387,6 +387,11 @@ static int config_add_layer(struct config *config, const char *s)
 	strcpy(buf, s);
 	name = strtok(buf, ":");
 
+	if (!name) {
+		err("\"%s\" is not a valid section name (ignoring)", s);
+		return -1;
+	}
+
 	if (config_get_layer_index(config, name) != -1)
 			return 1;
 
@@ -879,6 +884,9 @@ static int config_parse_string(struct config *config, char *content)
 
 		layername = strtok(section->name, ":");
 
+		if (!layername)
+			continue;
+
 		for (j = 0; j < section->nr_entries;j++) {
 			char entry[MAX_EXP_LEN];
 			struct ini_entry *ent = &section->entries[j];
-- 
2.43.0


From c995aa5f4d82568a4d3f51acae1bf48dcdb7f6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:54 +0000
Subject: [PATCH 35/70] fix: buffer overflow on composite layers with more than
 8 constituents

---
 src/config.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/config.c b/src/config.c
index 2dfa53e..e484eb3 100644
--- a/src/config.c
+++ b/src/config.c
@@ -324,7 +324,6 @@ static int new_layer(char *s, const struct config *config, struct layer *layer)
 
 	if (strchr(name, '+')) {
 		char *layername;
-		int n = 0;
 
 		layer->type = LT_COMPOSITE;
 		layer->nr_constituents = 0;
@@ -342,7 +341,7 @@ static int new_layer(char *s, const struct config *config, struct layer *layer)
 				return -1;
 			}
 
-			if (n >= ARRAY_SIZE(layer->constituents)) {
+			if (layer->nr_constituents >= ARRAY_SIZE(layer->constituents)) {
 				err("max composite layers (%d) exceeded", ARRAY_SIZE(layer->constituents));
 				return -1;
 			}
-- 
2.43.0


From 0ae357b24a85d37260e18d11cd3c8fd8fafa8bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:58 +0000
Subject: [PATCH 36/70] fix: reject config files with too many sections or
 entries instead of aborting

---
 src/ini.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/ini.c b/src/ini.c
index 6029293..fa1bb12 100644
--- a/src/ini.c
+++ b/src/ini.c
@@ -14,6 +14,7 @@
 #include <assert.h>
 
 #include "ini.h"
+#include "log.h"
 #define MAX_INI_SIZE 65536
 
 /*
@@ -107,13 +108,16 @@ struct ini *ini_parse_string(char *s, const char *default_section_name)
 		switch (line[0]) {
 		case '[':
 			if (line[len-1] == ']') {
-				assert(n < MAX_SECTIONS);
+				if (n >= MAX_SECTIONS) {
+					err("max sections (%d) exceeded", MAX_SECTIONS);
+					return NULL;
+				}
 
 				section = &ini.sections[n++];
 
 				line[len-1] = 0;
 
-				strncpy(section->name, line+1, sizeof(section->name));
+				snprintf(section->name, sizeof(section->name), "%s", line+1);
 				section->nr_entries = 0;
 				section->lnum = ln;
 
@@ -136,7 +140,10 @@ struct ini *ini_parse_string(char *s, const char *default_section_name)
 				return NULL;
 		}
 
-		assert(section->nr_entries < MAX_SECTION_ENTRIES);
+		if (section->nr_entries >= MAX_SECTION_ENTRIES) {
+			err("max section entries (%d) exceeded", MAX_SECTION_ENTRIES);
+			return NULL;
+		}
 
 		ent = &section->entries[section->nr_entries++];
 		parse_kvp(line, &ent->key, &ent->val);
-- 
2.43.0


From dbf90884961e04da6da4348e756d6018289f6a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:38 +0000
Subject: [PATCH 37/70] fix: an empty key name is not a key

---
 src/config.c | 5 +++++
 src/keys.c   | 6 +++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/config.c b/src/config.c
index e484eb3..fb6aa7f 100644
--- a/src/config.c
+++ b/src/config.c
@@ -246,6 +246,11 @@ static int set_layer_entry(const struct config *config,
 	size_t i;
 	int found = 0;
 
+	if (!key[0]) {
+		err("missing key name");
+		return -1;
+	}
+
 	if (strchr(key, '+')) {
 		//TODO: Handle aliases
 		char *tok;
diff --git a/src/keys.c b/src/keys.c
index 77d055f..d29f397 100644
--- a/src/keys.c
+++ b/src/keys.c
@@ -353,7 +353,7 @@ int parse_key_sequence(const char *s, uint8_t *codep, uint8_t *modsp)
 
 	uint8_t mods = 0;
 
-	while (c[1] == '-') {
+	while (c[0] && c[1] == '-') {
 		switch (*c) {
 		case 'C':
 			mods |= MOD_CTRL;
@@ -378,6 +378,10 @@ int parse_key_sequence(const char *s, uint8_t *codep, uint8_t *modsp)
 		c += 2;
 	}
 
+	/* Some keys have an empty alternative name. */
+	if (!*c)
+		return -1;
+
 	for (i = 0; i < 256; i++) {
 		const struct keycode_table_ent *ent = &keycode_table[i];
 
-- 
2.43.0


From 588dcd6db15e77d4b4acbbaf94c5d4e5f3ac1009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:42 +0000
Subject: [PATCH 38/70] fix: defining a chord overwrote bindings of larger
 chords

---
 src/config.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/config.c b/src/config.c
index fb6aa7f..820a167 100644
--- a/src/config.c
+++ b/src/config.c
@@ -227,7 +227,7 @@ static struct descriptor *layer_lookup_chord(struct layer *layer, uint8_t *keys,
 				}
 		}
 
-		if (nm == n)
+		if (nm == n && n == chord->sz)
 			return &chord->d;
 	}
 
@@ -273,6 +273,10 @@ static int set_layer_entry(const struct config *config,
 			keys[n++] = code;
 		}
 
+		if (!n) {
+			err("chords must contain at least one key");
+			return -1;
+		}
 
 		if ((ld = layer_lookup_chord(layer, keys, n))) {
 			*ld = *d;
-- 
2.43.0


From a81a9111cbcaec1b839d9a7b72e28337dc466411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:46 +0000
Subject: [PATCH 39/70] fix: crash on aliases and global options without a
 value

---
 src/config.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/config.c b/src/config.c
index 820a167..ca62a8d 100644
--- a/src/config.c
+++ b/src/config.c
@@ -758,6 +758,11 @@ static void parse_global_section(struct config *config, struct ini_section *sect
 	for (i = 0; i < section->nr_entries;i++) {
 		struct ini_entry *ent = &section->entries[i];
 
+		if (!ent->val) {
+			warn("line %zd: %s has no value", ent->lnum, ent->key);
+			continue;
+		}
+
 		if (!strcmp(ent->key, "macro_timeout"))
 			config->macro_timeout = atoi(ent->val);
 		else if (!strcmp(ent->key, "macro_sequence_timeout"))
@@ -830,6 +835,11 @@ static void parse_alias_section(struct config *config, struct ini_section *secti
 		struct ini_entry *ent = &section->entries[i];
 		const char *name = ent->val;
 
+		if (!name) {
+			warn("line %zd: %s has no value", ent->lnum, ent->key);
+			continue;
+		}
+
 		if ((code = lookup_keycode(ent->key))) {
 			ssize_t len = strlen(name);
 
-- 
2.43.0


From 7b8f7ef118d87d0b8c755a309a4c44a31b5518aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:50 +0000
Subject: [PATCH 40/70] fix: warn about excess device ids instead of aborting

---
 src/config.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/config.c b/src/config.c
index ca62a8d..1ba0eae 100644
--- a/src/config.c
+++ b/src/config.c
@@ -800,23 +800,21 @@ static void parse_id_section(struct config *config, struct ini_section *section)
 
 		if (!strcmp(s, "*")) {
 			config->wildcard = 1;
+		} else if (config->nr_ids >= ARRAY_SIZE(config->ids)) {
+			warn("max device ids (%d) exceeded, ignoring %s", ARRAY_SIZE(config->ids), s);
 		} else if (strstr(s, "m:") == s) {
-			assert(config->nr_ids < ARRAY_SIZE(config->ids));
 			config->ids[config->nr_ids].flags = ID_MOUSE;
 
 			snprintf(config->ids[config->nr_ids++].id, sizeof(config->ids[0].id), "%s", s+2);
 		} else if (strstr(s, "k:") == s) {
-			assert(config->nr_ids < ARRAY_SIZE(config->ids));
 			config->ids[config->nr_ids].flags = ID_KEYBOARD;
 
 			snprintf(config->ids[config->nr_ids++].id, sizeof(config->ids[0].id), "%s", s+2);
 		} else if (strstr(s, "-") == s) {
-			assert(config->nr_ids < ARRAY_SIZE(config->ids));
 			config->ids[config->nr_ids].flags = ID_EXCLUDED;
 
 			snprintf(config->ids[config->nr_ids++].id, sizeof(config->ids[0].id), "%s", s+1);
 		} else if (strlen(s) < sizeof(config->ids[config->nr_ids].id)-1) {
-			assert(config->nr_ids < ARRAY_SIZE(config->ids));
 			config->ids[config->nr_ids].flags = ID_KEYBOARD | ID_MOUSE;
 
 			snprintf(config->ids[config->nr_ids++].id, sizeof(config->ids[0].id), "%s", s);
-- 
2.43.0


From 17ec04b235528002cef3239289d71acca3e74d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:54 +0000
Subject: [PATCH 41/70] fix: reject actions with too many arguments instead of
 aborting

---
 src/config.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/config.c b/src/config.c
index 1ba0eae..5733e04 100644
--- a/src/config.c
+++ b/src/config.c
@@ -475,7 +475,9 @@ exit:
 			return -1;
 
 		if (arg != c) {
-			assert(*nargs < 5);
+			if (*nargs >= 5)
+				return -1;
+
 			args[(*nargs)++] = arg;
 		}
 
-- 
2.43.0


From 10a0dc3e546e0878e501682cea3fe70b88440702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:58 +0000
Subject: [PATCH 42/70] fix: lettermod arguments outlived the buffer they point
 into

---
 src/config.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/config.c b/src/config.c
index 5733e04..a986549 100644
--- a/src/config.c
+++ b/src/config.c
@@ -571,6 +571,7 @@ static int parse_descriptor(char *s,
 	int ret;
 	struct macro macro;
 	struct command cmd;
+	char buf[1024];
 
 	if (!s || !s[0]) {
 		d->op = 0;
@@ -640,8 +641,6 @@ static int parse_descriptor(char *s,
 		int i;
 
 		if (!strcmp(fn, "lettermod")) {
-			char buf[1024];
-
 			if (nargs != 4) {
 				err("%s requires 4 arguments", fn);
 				return -1;
-- 
2.43.0


From b93fe535fc4323bc4a9a1b695f5598da551b95a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:02 +0000
Subject: [PATCH 43/70] fix: truncated UTF-8 must not abort the program

---
 src/string.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/string.c b/src/string.c
index dfcdc60..7c61e10 100644
--- a/src/string.c
+++ b/src/string.c
@@ -3,8 +3,6 @@
  *
  * © 2019 Raheman Vaiya (see also: LICENSE).
  */
-#include <assert.h>
-
 #include "string.h"
 
 int utf8_read_char(const char *_s, uint32_t *code)
@@ -14,19 +12,21 @@ int utf8_read_char(const char *_s, uint32_t *code)
 	if (!s[0])
 		return 0;
 
+	/* Replace truncated characters (byte by byte). */
+	if ((s[0] >= 0xC0 && !s[1]) ||
+	    (s[0] >= 0xE0 && !s[2]) ||
+	    (s[0] >= 0xF0 && !s[3])) {
+		*code = 0xFFFD;
+		return 1;
+	}
+
 	if (s[0] >= 0xF0) {
-		assert(s[1]);
-		assert(s[2]);
-		assert(s[3]);
 		*code = (s[0] & 0x07) << 18 | (s[1] & 0x3F) << 12 | (s[2] & 0x3F) << 6 | (s[3] & 0x3F);
 		return 4;
 	} else if (s[0] >= 0xE0) {
-		assert(s[1]);
-		assert(s[2]);
 		*code = (s[0] & 0x0F) << 12 | (s[1] & 0x3F) << 6 | (s[2] & 0x3F);
 		return 3;
 	} else if (s[0] >= 0xC0) {
-		assert(s[1]);
 		*code = (s[0] & 0x1F) << 6 | (s[1] & 0x3F);
 		return 2;
 	} else {
-- 
2.43.0


From 0942ac13b1569a616b4f0f434681ba46fad80dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:06 +0000
Subject: [PATCH 44/70] fix: macro key groups with a delay released unrelated
 keys, first unicode table entry unusable

---
 src/macro.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/macro.c b/src/macro.c
index 13f743e..96e7228 100644
--- a/src/macro.c
+++ b/src/macro.c
@@ -69,7 +69,7 @@ int macro_parse(char *s, struct macro *macro)
 							break;
 						}
 					}
-				} else if ((xcode = unicode_lookup_index(codepoint)) > 0)
+				} else if ((xcode = unicode_lookup_index(codepoint)) >= 0)
 					ADD_ENTRY(MACRO_UNICODE, xcode);
 
 				tok += chrsz;
@@ -110,7 +110,8 @@ void macro_execute(void (*output)(uint8_t, uint8_t),
 
 				for (j = hold_start; j < i; j++) {
 					const struct macro_entry *ent = &macro->entries[j];
-					output(ent->data, 0);
+					if (ent->type == MACRO_HOLD)
+						output(ent->data, 0);
 				}
 
 				hold_start = -1;
-- 
2.43.0


From b21c29fb525bc74b4ee936c73ed78f0e1008668b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:10 +0000
Subject: [PATCH 45/70] fix: client input errors (unreadable stdin, oversized
 arguments)

---
 src/keyd.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/keyd.c b/src/keyd.c
index 9c5172d..93ca0f7 100644
--- a/src/keyd.c
+++ b/src/keyd.c
@@ -10,12 +10,15 @@ static int ipc_exec(int type, const char *data, size_t sz, uint32_t timeout)
 {
 	struct ipc_message msg;
 
-	assert(sz <= sizeof(msg.data));
+	if (sz > sizeof(msg.data))
+		die("maximum input length exceeded");
 
+	memset(&msg, 0, sizeof msg);
 	msg.type = type;
 	msg.sz = sz;
 	msg.timeout = timeout;
-	memcpy(msg.data, data, sz);
+	if (sz)
+		memcpy(msg.data, data, sz);
 
 	int con = ipc_connect();
 
@@ -112,7 +115,7 @@ static void read_input(int argc, char *argv[], char *buf, size_t *psz)
 		}
 	} else {
 		while (1) {
-			size_t n;
+			ssize_t n;
 
 			if ((n = read(0, buf+sz, bufsz-sz)) <= 0)
 				break;
-- 
2.43.0


From 8e07ea53b140f8d1fe5621d6884805b697fd4d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:13 +0000
Subject: [PATCH 46/70] fix: a deferred chord was replaced by the next one

---
 src/keyboard.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 784cb38..86d2ffe 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -857,6 +857,19 @@ struct keyboard *new_keyboard(struct config *config, const struct output *output
 	return kbd;
 }
 
+/* Returns 1 if an event of the given code awaits the resolution of a pending key. */
+static int is_deferred(struct keyboard *kbd, uint8_t code)
+{
+	size_t i;
+
+	if (kbd->pending_key.code)
+		for (i = 0; i < kbd->pending_key.queue_sz; i++)
+			if (kbd->pending_key.queue[i].code == code)
+				return 1;
+
+	return 0;
+}
+
 static int resolve_chord(struct keyboard *kbd)
 {
 	size_t queue_offset = 0;
@@ -870,7 +883,7 @@ static int resolve_chord(struct keyboard *kbd)
 
 		for (i = 0; i < ARRAY_SIZE(kbd->active_chords); i++) {
 			struct active_chord *ac = &kbd->active_chords[i];
-			if (!ac->active) {
+			if (!ac->active && !is_deferred(kbd, KEYD_CHORD_1 + i)) {
 				ac->active = 1;
 				ac->chord = *chord;
 				ac->layer = kbd->chord.match_layer;
-- 
2.43.0


From cefbf6e2cc595e5bfd80127975bbcfba67466bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:02 +0000
Subject: [PATCH 47/70] fix: extreme motion in scroll mode overflowed (or
 crashed with a negative sensitivity)

---
 src/daemon.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index e9235d9..d2b2d00 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -576,16 +576,17 @@ static int event_handler(struct event *ev)
 				if (kbd->scroll.active) {
 					if (kbd->scroll.sensitivity == 0)
 						break;
-					int xticks, yticks;
+					/* Devices may report arbitrary 32 bit distances. */
+					int64_t xticks, yticks;
 
-					kbd->scroll.y += ev->devev->y;
-					kbd->scroll.x += ev->devev->x;
+					yticks = (int64_t)kbd->scroll.y + ev->devev->y;
+					xticks = (int64_t)kbd->scroll.x + ev->devev->x;
 
-					yticks = kbd->scroll.y / kbd->scroll.sensitivity;
-					kbd->scroll.y %= kbd->scroll.sensitivity;
+					kbd->scroll.y = yticks % kbd->scroll.sensitivity;
+					yticks /= kbd->scroll.sensitivity;
 
-					xticks = kbd->scroll.x / kbd->scroll.sensitivity;
-					kbd->scroll.x %= kbd->scroll.sensitivity;
+					kbd->scroll.x = xticks % kbd->scroll.sensitivity;
+					xticks /= kbd->scroll.sensitivity;
 
 					vkbd_mouse_scroll(vkbd, 0, -1*yticks);
 					vkbd_mouse_scroll(vkbd, 0, xticks);
-- 
2.43.0


From e39d900391875b852118fbefc4cc9d517061d793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 48/70] fix: devices which are announced twice are opened twice

---
 src/evloop.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/evloop.c b/src/evloop.c
index 9031c48..9905160 100644
--- a/src/evloop.c
+++ b/src/evloop.c
@@ -27,6 +27,24 @@ static void panic_check()
 		die("panic sequence detected");
 }
 
+/*
+ * A device may be announced more than once (e.g if its node is reused, or if it
+ * is added while the existing devices are being scanned).
+ */
+static int is_open(const struct device *dev)
+{
+	size_t i;
+	struct input_id info;
+
+	for (i = 0; i < device_table_sz; i++)
+		if (device_table[i].fd != -1 &&
+		    !strcmp(device_table[i].path, dev->path) &&
+		    !ioctl(device_table[i].fd, EVIOCGID, &info))
+			return 1;
+
+	return 0;
+}
+
 static long get_time_ms()
 {
 	struct timespec ts;
@@ -138,6 +156,11 @@ int evloop(int (*event_handler) (struct event *ev))
 			struct device dev;
 
 			while (devmon_read_device(monfd, &dev) == 0) {
+				if (is_open(&dev)) {
+					close(dev.fd);
+					continue;
+				}
+
 				if (device_table_sz == MAX_DEVICES) {
 					keyd_log("r{ERROR:} too many devices, ignoring %s\n", dev.path);
 					close(dev.fd);
-- 
2.43.0


From d18f330877e5c10acb9eb4a2442120950ce42e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 49/70] fix: a key struck just before a device is grabbed
 remains pressed

---
 src/device.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/device.c b/src/device.c
index 6a2d7e2..4f39d27 100644
--- a/src/device.c
+++ b/src/device.c
@@ -350,16 +350,17 @@ int device_grab(struct device *dev)
 				n++;
 		}
 
-		if (n == 0)
-			break;
-		else
+		if (n) {
 			pending_release = 1;
-	}
-
-	if (pending_release) {
-		//Allow the key up events to propagate before
-		//grabbing the device.
-		usleep(100);
+		} else if (pending_release) {
+			//Allow the key up events to propagate before
+			//grabbing the device (unless another key is
+			//struck in the meantime).
+			pending_release = 0;
+			usleep(100);
+		} else {
+			break;
+		}
 	}
 
 	if (ioctl(dev->fd, EVIOCGRAB, (void *) 1) < 0) {
-- 
2.43.0


From 2a859f2a2758c13fa2f907ae908995e983f4de0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:46 +0000
Subject: [PATCH 50/70] fix: bind reset pulled away the actions of keys which
 were being held

---
 src/keyboard.c | 31 ++++++++++++++++++++++++++++++-
 src/keyboard.h |  1 +
 2 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index 86d2ffe..ba47f86 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -1246,10 +1246,39 @@ long kbd_process_events(struct keyboard *kbd, const struct key_event *events, si
 	return timeout;
 }
 
+/*
+ * Restore the original bindings. Actions which are still in use (e.g by a key
+ * which is being held) remain intact.
+ */
+static void reset_config(struct keyboard *kbd)
+{
+	size_t i;
+	int in_use = kbd->active_macro || kbd->pending_key.code || kbd->chord.state != CHORD_INACTIVE;
+	struct config *config = &kbd->config;
+	const struct config *original = kbd->original_config;
+
+	for (i = 0; i < CACHE_SIZE; i++)
+		if (kbd->cache[i].code)
+			in_use = 1;
+
+	if (kbd->chord.match) {
+		kbd->chord.saved_match = *kbd->chord.match;
+		kbd->chord.match = &kbd->chord.saved_match;
+	}
+
+	memcpy(config->layers, original->layers, sizeof config->layers);
+
+	if (!in_use) {
+		config->nr_descriptors = original->nr_descriptors;
+		config->nr_macros = original->nr_macros;
+		config->nr_commands = original->nr_commands;
+	}
+}
+
 int kbd_eval(struct keyboard *kbd, const char *exp)
 {
 	if (!strcmp(exp, "reset")) {
-		memcpy(&kbd->config, kbd->original_config, sizeof(struct config));
+		reset_config(kbd);
 		return 0;
 	} else {
 		return config_add_entry(&kbd->config, exp);
diff --git a/src/keyboard.h b/src/keyboard.h
index db27d17..fce05b5 100644
--- a/src/keyboard.h
+++ b/src/keyboard.h
@@ -78,6 +78,7 @@ struct keyboard {
 		size_t queue_sz;
 
 		const struct chord *match;
+		struct chord saved_match;
 		int match_layer;
 
 		uint8_t start_code;
-- 
2.43.0


From f9eb9657039b080fb80e98bfcc799e1840333f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:10 +0000
Subject: [PATCH 51/70] fix: listeners were told that a layer is off while it
 is still on

---
 src/keyboard.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/keyboard.c b/src/keyboard.c
index ba47f86..16081cc 100644
--- a/src/keyboard.c
+++ b/src/keyboard.c
@@ -245,9 +245,10 @@ static void deactivate_layer(struct keyboard *kbd, int idx)
 	dbg("Deactivating layer %s", kbd->config.layers[idx].name);
 
 	assert(kbd->layer_state[idx].active > 0);
-	kbd->layer_state[idx].active--;
 
-	kbd->output.on_layer_change(kbd, &kbd->config.layers[idx], 0);
+	/* A layer may have been activated more than once (e.g by several keys). */
+	if (!--kbd->layer_state[idx].active)
+		kbd->output.on_layer_change(kbd, &kbd->config.layers[idx], 0);
 }
 
 /*
@@ -261,12 +262,12 @@ static void activate_layer(struct keyboard *kbd, uint8_t code, int idx)
 	struct cache_entry *ce;
 
 	kbd->layer_state[idx].activation_time = get_time();
-	kbd->layer_state[idx].active++;
 
 	if ((ce = cache_get(kbd, code)))
 		ce->layer = idx;
 
-	kbd->output.on_layer_change(kbd, &kbd->config.layers[idx], 1);
+	if (!kbd->layer_state[idx].active++)
+		kbd->output.on_layer_change(kbd, &kbd->config.layers[idx], 1);
 }
 
 /* Returns:
-- 
2.43.0


From caa56eb8a6206ce2f1c7d994138a3066e4dfc52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:06 +0000
Subject: [PATCH 52/70] fix: report absolute pointer positions relative to the
 start of their axis, and 0 as well

A position at the left or top edge was dropped, and devices whose axes do not
start at 0 produced positions outside of the range of the virtual pointer.
---
 src/device.c      | 12 +++++++++---
 src/device.h      |  5 ++++-
 src/vkbd/uinput.c |  4 ++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/device.c b/src/device.c
index 4f39d27..e5cc1fc 100644
--- a/src/device.c
+++ b/src/device.c
@@ -396,7 +396,13 @@ static int32_t scale_abs(int32_t value, int32_t min, int32_t max)
 {
 	int64_t range = (int64_t)max - min;
 
-	return range > 0 ? ((int64_t)value * 1024) / range : 0;
+	if (value < min)
+		value = min;
+
+	if (value > max)
+		value = max;
+
+	return range > 0 ? (((int64_t)value - min) * 1024) / range : -1;
 }
 
 /*
@@ -466,13 +472,13 @@ struct device_event *device_read_event(struct device *dev)
 		case ABS_X:
 			devev.type = DEV_MOUSE_MOVE_ABS;
 			devev.x = scale_abs(ev.value, dev->_minx, dev->_maxx);
-			devev.y = 0;
+			devev.y = -1;
 
 			break;
 		case ABS_Y:
 			devev.type = DEV_MOUSE_MOVE_ABS;
 			devev.y = scale_abs(ev.value, dev->_miny, dev->_maxy);
-			devev.x = 0;
+			devev.x = -1;
 
 			break;
 		default:
diff --git a/src/device.h b/src/device.h
index e070fb6..fdf8197 100644
--- a/src/device.h
+++ b/src/device.h
@@ -48,7 +48,10 @@ struct device_event {
 		DEV_LED,
 
 		DEV_MOUSE_MOVE,
-		/* All absolute values are relative to a resolution of 1024x1024. */
+		/*
+		 * All absolute values are relative to a resolution of
+		 * 1024x1024, -1 denotes an axis which did not change.
+		 */
 		DEV_MOUSE_MOVE_ABS,
 		DEV_MOUSE_SCROLL,
 
diff --git a/src/vkbd/uinput.c b/src/vkbd/uinput.c
index fb2e402..b0dd764 100644
--- a/src/vkbd/uinput.c
+++ b/src/vkbd/uinput.c
@@ -313,7 +313,7 @@ void vkbd_mouse_move_abs(const struct vkbd *vkbd, int x, int y)
 {
 	struct input_event ev;
 
-	if (x) {
+	if (x >= 0) {
 		ev.type = EV_ABS;
 		ev.code = ABS_X;
 		ev.value = x;
@@ -324,7 +324,7 @@ void vkbd_mouse_move_abs(const struct vkbd *vkbd, int x, int y)
 		xwrite(vkbd->pfd, &ev, sizeof(ev));
 	}
 
-	if (y) {
+	if (y >= 0) {
 		ev.type = EV_ABS;
 		ev.code = ABS_Y;
 		ev.value = y;
-- 
2.43.0


From b6a6d737473b94b019f838ea8d43cd43e8a26235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:48 +0000
Subject: [PATCH 53/70] fix: keep the layer indicator in step with hotplug and
 reloads

A device captured while a layer was active did not show it, and a reload in
that state left the light on.
---
 src/daemon.c | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/daemon.c b/src/daemon.c
index d2b2d00..893d37a 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -133,6 +133,17 @@ fail:
 	return;
 }
 
+static int indicator_state(const struct keyboard *kbd)
+{
+	size_t i;
+
+	for (i = 1; i < kbd->config.nr_layers; i++)
+		if (kbd->config.layers[i].type != LT_LAYOUT && kbd->layer_state[i].active)
+			return 1;
+
+	return 0;
+}
+
 static void on_layer_change(const struct keyboard *kbd, const struct layer *layer, uint8_t state)
 {
 	size_t i;
@@ -143,13 +154,7 @@ static void on_layer_change(const struct keyboard *kbd, const struct layer *laye
 	size_t n = 0;
 
 	if (kbd->config.layer_indicator) {
-		int active_layers = 0;
-
-		for (i = 1; i < kbd->config.nr_layers; i++)
-			if (kbd->config.layers[i].type != LT_LAYOUT && kbd->layer_state[i].active) {
-				active_layers = 1;
-				break;
-			}
+		int active_layers = indicator_state(kbd);
 
 		for (i = 0; i < device_table_sz; i++)
 			if (device_table[i].data == kbd)
@@ -273,6 +278,10 @@ static void manage_device(struct device *dev)
 			  dev->id, ent->config.path, dev->name);
 
 		dev->data = ent->kbd;
+
+		/* The device may join a keyboard which already has active layers. */
+		if (ent->kbd->config.layer_indicator && indicator_state(ent->kbd))
+			device_set_led(dev, 1, 1);
 	} else {
 		dev->data = NULL;
 		device_ungrab(dev);
@@ -284,6 +293,14 @@ static void reload()
 {
 	size_t i;
 
+	/* The new configs start without active layers. */
+	for (i = 0; i < device_table_sz; i++) {
+		const struct keyboard *kbd = device_table[i].data;
+
+		if (kbd && kbd->config.layer_indicator && indicator_state(kbd))
+			device_set_led(&device_table[i], 1, 0);
+	}
+
 	/* Refers to one of the old configs. */
 	active_kbd = NULL;
 
-- 
2.43.0


From f8027569bec9c2f8c0085de0b996f09e466a2198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:54 +0000
Subject: [PATCH 54/70] fix: the prog1-4 keys act as f21-f24, not as a scroll
 wheel

---
 src/device.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/device.c b/src/device.c
index e5cc1fc..ae2b9e6 100644
--- a/src/device.c
+++ b/src/device.c
@@ -497,6 +497,14 @@ struct device_event *device_read_event(struct device *dev)
 		if (ev.value == 2)
 			return NULL;
 
+		/* Keyd uses the codes of these for the wheel. */
+		switch (ev.code) {
+			case KEY_PROG1: ev.code = KEYD_F21; break;
+			case KEY_PROG2: ev.code = KEYD_F22; break;
+			case KEY_PROG3: ev.code = KEYD_F23; break;
+			case KEY_PROG4: ev.code = KEYD_F24; break;
+		}
+
 		if (ev.code >= 256) {
 			switch (ev.code) {
 				/*
@@ -520,11 +528,6 @@ struct device_event *device_read_event(struct device *dev)
 				case KEY_FN_F11: ev.code = KEYD_F23; break;
 				case KEY_FN_F12: ev.code = KEYD_F24; break;
 
-				case KEY_PROG1: ev.code = KEYD_F21; break;
-				case KEY_PROG2: ev.code = KEYD_F22; break;
-				case KEY_PROG3: ev.code = KEYD_F23; break;
-				case KEY_PROG4: ev.code = KEYD_F24; break;
-
 				/* Thinkpad fn shifted f9-f11 */
 				case KEY_NOTIFICATION_CENTER:  ev.code = KEYD_F21; break;
 				case KEY_PICKUP_PHONE:         ev.code = KEYD_F22; break;
-- 
2.43.0


From 0f3e4802f10d4e84af225cd0dee52466e561e26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:13 +0000
Subject: [PATCH 55/70] fix: a dot in the action of a runtime binding does not
 name a layer

---
 src/config.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/config.c b/src/config.c
index a986549..b8f28f4 100644
--- a/src/config.c
+++ b/src/config.c
@@ -1019,7 +1019,7 @@ int config_get_layer_index(const struct config *config, const char *name)
  */
 int config_add_entry(struct config *config, const char *exp)
 {
-	char *keyname, *descstr, *dot, *paren, *s;
+	char *keyname, *descstr, *dot, *paren, *eq, *s;
 	char *layername = "main";
 	struct descriptor d;
 	struct layer *layer;
@@ -1037,8 +1037,9 @@ int config_add_entry(struct config *config, const char *exp)
 
 	dot = strchr(s, '.');
 	paren = strchr(s, '(');
+	eq = *s ? strchr(s+1, '=') : NULL;
 
-	if (dot && dot != s && (!paren || dot < paren)) {
+	if (dot && dot != s && (!paren || dot < paren) && (!eq || dot < eq)) {
 		layername = s;
 		*dot = 0;
 		s = dot+1;
-- 
2.43.0


From a89d671ea426f18af75d3933680539521b6c6a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 56/70] fix: exit with a failure if a reload fails

---
 src/keyd.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/keyd.c b/src/keyd.c
index 93ca0f7..ef945d4 100644
--- a/src/keyd.c
+++ b/src/keyd.c
@@ -207,9 +207,7 @@ static int layer_listen(int argc, char *argv[])
 
 static int reload()
 {
-	ipc_exec(IPC_RELOAD, NULL, 0, 0);
-
-	return 0;
+	return ipc_exec(IPC_RELOAD, NULL, 0, 0);
 }
 
 struct {
-- 
2.43.0


From 1955790c6f27f8c192ba2e2fb69aa9e3795f00dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:30 +0000
Subject: [PATCH 57/70] fix: mapper: do not lag behind, spin on a closed pipe
 or lose titles with tabs in Gnome

---
 scripts/keyd-application-mapper | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/scripts/keyd-application-mapper b/scripts/keyd-application-mapper
index 91c4c93..362c639 100755
--- a/scripts/keyd-application-mapper
+++ b/scripts/keyd-application-mapper
@@ -443,7 +443,9 @@ NOTE:
             exit(0)
 
     def run(self):
-        fh = open(self.fifo_path)
+        # Unbuffered, since select() knows nothing about buffered lines, and
+        # writable so that the pipe does not end if the extension restarts.
+        fh = open(self.fifo_path, 'r+b', buffering=0)
         last_cls = ''
         last_title = ''
 
@@ -453,12 +455,12 @@ NOTE:
                 continue
 
             try:
-                (cls, title) = line.strip('\n').split('\t')
-                last_cls = cls
-                last_title = title
-            except:
-                cls = ''
-                title = ''
+                (cls, title) = line.decode('utf8', 'replace').strip('\n').split('\t', 1)
+            except ValueError:
+                continue
+
+            last_cls = cls
+            last_title = title
 
             self.on_window_change(cls, title)
 
-- 
2.43.0


From 7b8c2b3dbfa2ac497336a6f85a40f1ce57090aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:34 +0000
Subject: [PATCH 58/70] fix: mapper: read whole wayland messages

---
 scripts/keyd-application-mapper | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/scripts/keyd-application-mapper b/scripts/keyd-application-mapper
index 362c639..c327a47 100755
--- a/scripts/keyd-application-mapper
+++ b/scripts/keyd-application-mapper
@@ -194,13 +194,23 @@ class Wayland():
         self.sock.sendall(struct.pack(b'II', object_id, opcode))
         self.sock.sendall(payload)
 
+    def recv(self, size):
+        data = b''
+        while len(data) < size:
+            chunk = self.sock.recv(size-len(data))
+            if not chunk:
+                raise Exception('Lost the connection to the compositor')
+            data += chunk
+
+        return data
+
     def recv_msg(self):
-        (object_id, evcode) = struct.unpack('II', self.sock.recv(8))
+        (object_id, evcode) = struct.unpack('II', self.recv(8))
 
         size = evcode >> 16
         evcode = evcode & 0xFFFF
 
-        data = self.sock.recv(size-8)
+        data = self.recv(size-8)
 
         return (object_id, evcode, data)
 
-- 
2.43.0


From 65a561fd10c6ecad6b55e22952dd1c498269bbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:38 +0000
Subject: [PATCH 59/70] fix: mapper: do not confuse windows which have the same
 title

---
 scripts/keyd-application-mapper | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/keyd-application-mapper b/scripts/keyd-application-mapper
index c327a47..2944d66 100755
--- a/scripts/keyd-application-mapper
+++ b/scripts/keyd-application-mapper
@@ -268,7 +268,7 @@ class Wlroots():
                 windows[obj]['appid'] = self.wl.read_string(payload)
             elif event == 4:
                 # zwlr_foreign_toplevel_handle_v1::state event
-                if active_window == windows[obj]:
+                if active_window is windows[obj]:
                     active_window = None
                 window_is_active = False
 
@@ -283,13 +283,13 @@ class Wlroots():
 
                 if window_is_active:
                     active_window = windows[obj]
-            elif event == 5 and active_window == windows[obj]:
+            elif event == 5 and active_window is windows[obj]:
                 # zwlr_foreign_toplevel_handle_v1::done event
                 self.on_window_change(active_window['appid'], active_window['title'])
             elif event == 6:
                 # zwlr_foreign_toplevel_handle_v1::closed event
                 closed_window = windows.pop(obj)
-                if closed_window == active_window:
+                if closed_window is active_window:
                     active_window = None
 
 class Cosmic():
-- 
2.43.0


From 862e54f6531df416de761c1752289c0cf9bcd845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:50 +0000
Subject: [PATCH 60/70] fix: mapper: notice the focus of maximized windows in
 Cosmic

---
 scripts/keyd-application-mapper | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/keyd-application-mapper b/scripts/keyd-application-mapper
index 2944d66..4e7595b 100755
--- a/scripts/keyd-application-mapper
+++ b/scripts/keyd-application-mapper
@@ -311,7 +311,8 @@ class Cosmic():
                 windows[obj]['title'] = self.wl.read_string(payload)
             if event == 3:
                 windows[obj]['appid'] = self.wl.read_string(payload)
-            if event == 8  and payload[0] > 0 and payload[4] == 2:
+            # A focused window may be in other states (e.g maximized) as well.
+            if event == 8 and 2 in struct.unpack(f'{len(payload)//4}I', payload)[1:]:
                 self.on_window_change(windows[obj].get('appid', ''), windows[obj].get('title', ''))
 
 class XMonitor():
-- 
2.43.0


From e5fa0e97b95095bb58479a8f6536495cf8977beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:03 +0000
Subject: [PATCH 61/70] fix: terminate the listen line of a layer whose name
 has the maximum length

---
 src/daemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/daemon.c b/src/daemon.c
index 893d37a..6463499 100644
--- a/src/daemon.c
+++ b/src/daemon.c
@@ -147,7 +147,7 @@ static int indicator_state(const struct keyboard *kbd)
 static void on_layer_change(const struct keyboard *kbd, const struct layer *layer, uint8_t state)
 {
 	size_t i;
-	char buf[MAX_LAYER_NAME_LEN+2];
+	char buf[MAX_LAYER_NAME_LEN+3];
 	ssize_t bufsz;
 
 	int keep[ARRAY_SIZE(listeners)];
-- 
2.43.0


From dbdf0d0d8087929f596b325864b932cf61e40d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:00 +0000
Subject: [PATCH 62/70] fix: a key whose alias is a modifier key acts as that
 modifier

---
 src/config.c | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/config.c b/src/config.c
index b8f28f4..b6420e9 100644
--- a/src/config.c
+++ b/src/config.c
@@ -560,6 +560,22 @@ static int parse_command(const char *s, struct command *command)
 	return 0;
 }
 
+/*
+ * The layer a modifier key stands for when it is assigned to another key, or
+ * NULL if the key code is not one of a modifier with a layer.
+ */
+static const char *modifier_layer(uint8_t code)
+{
+	switch (code) {
+		case KEYD_LEFTSHIFT:   return "shift";
+		case KEYD_LEFTCTRL:    return "control";
+		case KEYD_LEFTMETA:    return "meta";
+		case KEYD_LEFTALT:     return "alt";
+		case KEYD_RIGHTALT:    return "altgr";
+		default:               return NULL;
+	}
+}
+
 static int parse_descriptor(char *s,
 			    struct descriptor *d,
 			    struct config *config)
@@ -579,16 +595,7 @@ static int parse_descriptor(char *s,
 	}
 
 	if (!parse_key_sequence(s, &code, &mods)) {
-		size_t i;
-		const char *layer = NULL;
-
-		switch (code) {
-			case KEYD_LEFTSHIFT:   layer = "shift"; break;
-			case KEYD_LEFTCTRL:    layer = "control"; break;
-			case KEYD_LEFTMETA:    layer = "meta"; break;
-			case KEYD_LEFTALT:     layer = "alt"; break;
-			case KEYD_RIGHTALT:    layer = "altgr"; break;
-		}
+		const char *layer = modifier_layer(code);
 
 		if (layer) {
 			warn("You should use b{layer(%s)} instead of assigning to b{%s} directly.", layer, KEY_NAME(code));
@@ -849,10 +856,17 @@ static void parse_alias_section(struct config *config, struct ini_section *secti
 
 				if ((alias_code = lookup_keycode(name))) {
 					struct descriptor *d = &config->layers[0].keymap[code];
-
-					d->op = OP_KEYSEQUENCE;
-					d->args[0].code = alias_code;
-					d->args[1].mods = 0;
+					const char *layer = modifier_layer(alias_code);
+
+					if (layer) {
+						/* A bare modifier would not affect other keys. */
+						d->op = OP_LAYER;
+						d->args[0].idx = config_get_layer_index(config, layer);
+					} else {
+						d->op = OP_KEYSEQUENCE;
+						d->args[0].code = alias_code;
+						d->args[1].mods = 0;
+					}
 				}
 
 				strcpy(config->aliases[code], name);
-- 
2.43.0


From 9b91a11e6ef44a8dabd4c31851de12e283bc9fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:40 +0000
Subject: [PATCH 63/70] fix: '[ = ]' is a binding, not a section header

---
 src/ini.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ini.c b/src/ini.c
index fa1bb12..6b39813 100644
--- a/src/ini.c
+++ b/src/ini.c
@@ -60,6 +60,14 @@ void parse_kvp(char *s, char **key, char **value)
 	}
 }
 
+/* '[ = ]' and '[+a = ]' bind the key (or chord) rather than opening a section. */
+static int is_binding(const char *line)
+{
+	const char *c = line + 1 + strspn(line + 1, " \t");
+
+	return *c == '=' || (line[1] == '+' && strchr(line, '='));
+}
+
 /*
  * The result is statically allocated and should not be freed by the caller.
  * The returned struct is only valid until the next invocation. The
@@ -107,7 +115,7 @@ struct ini *ini_parse_string(char *s, const char *default_section_name)
 
 		switch (line[0]) {
 		case '[':
-			if (line[len-1] == ']') {
+			if (line[len-1] == ']' && !is_binding(line)) {
 				if (n >= MAX_SECTIONS) {
 					err("max sections (%d) exceeded", MAX_SECTIONS);
 					return NULL;
-- 
2.43.0


From 73d2334d4311362671d94af37cdbbe62a7136652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:35 +0000
Subject: [PATCH 64/70] fix: mapper: '[ = ]' is a binding, not a section

---
 scripts/keyd-application-mapper | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/keyd-application-mapper b/scripts/keyd-application-mapper
index 4e7595b..25ee618 100755
--- a/scripts/keyd-application-mapper
+++ b/scripts/keyd-application-mapper
@@ -66,7 +66,8 @@ def parse_config(path):
     for line in open(path):
         line = line.strip()
 
-        if line.startswith('[') and line.endswith(']'):
+        # '[ = ]' and '[+a = ]' are bindings.
+        if line.startswith('[') and line.endswith(']') and not re.match(r'\[(\s*|\+[^|]*)=', line):
             a = line[1:-1].split('|')
 
             if len(a) < 2:
-- 
2.43.0


From 9eea6c40e53983830895619022cf2475968dfd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:08 +0000
Subject: [PATCH 65/70] fix: layouts: capitals which had become control
 characters

---
 layouts/at  | 2 +-
 layouts/az  | 2 +-
 layouts/de  | 2 +-
 layouts/dz  | 4 ++--
 layouts/ee  | 2 +-
 layouts/epo | 2 +-
 layouts/hu  | 6 +++---
 layouts/ie  | 2 +-
 layouts/nl  | 2 +-
 layouts/tm  | 2 +-
 layouts/tr  | 4 ++--
 layouts/za  | 4 ++--
 12 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/layouts/at b/layouts/at
index a0dac82..2264211 100644
--- a/layouts/at
+++ b/layouts/at
@@ -63,7 +63,7 @@ altgr = layer(at_altgr)
 8 = (
 9 = )
 ; = Ö
-[ = 
+[ = Ü
 \ = '
 ] = *
 a = A
diff --git a/layouts/az b/layouts/az
index 27925cf..5c5c801 100644
--- a/layouts/az
+++ b/layouts/az
@@ -89,7 +89,7 @@ s = S
 t = T
 u = U
 v = V
-w = 
+w = Ü
 x = X
 y = Y
 z = Z
diff --git a/layouts/de b/layouts/de
index 3314f47..a6b5e01 100644
--- a/layouts/de
+++ b/layouts/de
@@ -63,7 +63,7 @@ altgr = layer(de_altgr)
 8 = (
 9 = )
 ; = Ö
-[ = 
+[ = Ü
 \ = '
 ] = *
 a = A
diff --git a/layouts/dz b/layouts/dz
index 151cb07..fb0d437 100644
--- a/layouts/dz
+++ b/layouts/dz
@@ -161,7 +161,7 @@ f = ‚
 g = Ǧ
 h = Ḥ
 i = Î
-j = 
+j = Ü
 k = Ï
 l = Ŀ
 m = …
@@ -172,7 +172,7 @@ q = Æ
 r = Ṛ
 s = Ṣ
 t = Ṭ
-u = 
+u = Û
 v = Ɣ
 w = Ẓ
 x = ”
diff --git a/layouts/ee b/layouts/ee
index 6c67c31..45adfff 100644
--- a/layouts/ee
+++ b/layouts/ee
@@ -63,7 +63,7 @@ altgr = layer(ee_altgr)
 8 = (
 9 = )
 ; = Ö
-[ = 
+[ = Ü
 \ = *
 ] = Õ
 a = A
diff --git a/layouts/epo b/layouts/epo
index 21ddeb9..52251f4 100644
--- a/layouts/epo
+++ b/layouts/epo
@@ -92,7 +92,7 @@ u = U
 v = V
 w = Ĝ
 x = Ĉ
-y = 
+y = Ŭ
 z = Z
 
 [epo_altgr:G]
diff --git a/layouts/hu b/layouts/hu
index cfe40f4..2a47d00 100644
--- a/layouts/hu
+++ b/layouts/hu
@@ -51,7 +51,7 @@ altgr = layer(hu_altgr)
 [hu_shift:S]
 ' = Á
 , = ?
-- = 
+- = Ü
 . = :
 / = _
 1 = '
@@ -66,8 +66,8 @@ altgr = layer(hu_altgr)
 ; = É
 = = Ó
 [ = Ő
-\ = 
-] = ¬
+\ = Ű
+] = Ú
 a = A
 b = B
 c = C
diff --git a/layouts/ie b/layouts/ie
index 8fd4dc3..1fb55df 100644
--- a/layouts/ie
+++ b/layouts/ie
@@ -167,7 +167,7 @@ q = Œ
 r = ‰
 s = ẞ
 t = Þ
-u = ¬
+u = Ú
 x = ∼
 y = µ
 z = 〉
diff --git a/layouts/nl b/layouts/nl
index d9423f9..0f90ebf 100644
--- a/layouts/nl
+++ b/layouts/nl
@@ -166,7 +166,7 @@ q = Ω
 r = ®
 s = ẞ
 t = Þ
-u = 
+u = Ü
 v = ‘
 w = §
 x = >
diff --git a/layouts/tm b/layouts/tm
index 75fbe75..add9d56 100644
--- a/layouts/tm
+++ b/layouts/tm
@@ -91,7 +91,7 @@ t = T
 u = U
 v = Ý
 w = W
-x = 
+x = Ü
 y = Y
 z = Z
 
diff --git a/layouts/tr b/layouts/tr
index 66dc959..c73d0cc 100644
--- a/layouts/tr
+++ b/layouts/tr
@@ -67,7 +67,7 @@ altgr = layer(tr_altgr)
 = = _
 [ = Ğ
 \ = ;
-] = 
+] = Ü
 a = A
 b = B
 c = C
@@ -150,7 +150,7 @@ n = ’
 o = Ô
 q = Ω
 r = ®
-u = 
+u = Û
 v = ‚
 x = >
 y = ¥
diff --git a/layouts/za b/layouts/za
index 7905088..f9fc8a4 100644
--- a/layouts/za
+++ b/layouts/za
@@ -164,9 +164,9 @@ q = Ω
 r = Ê
 s = Š
 t = Ṱ
-u = 
+u = Ü
 v = ‘
 w = §
 x = >
-y = 
+y = Û
 z = <
-- 
2.43.0


From ed1476b5d42bdd85001b061b94d1824143abff25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:12 +0000
Subject: [PATCH 66/70] fix: dump-xkb-config: Udiaeresis, Uacute etc are not
 code points

---
 scripts/dump-xkb-config | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/dump-xkb-config b/scripts/dump-xkb-config
index b241746..2a18a73 100755
--- a/scripts/dump-xkb-config
+++ b/scripts/dump-xkb-config
@@ -67,7 +67,7 @@ sub sym_to_char {
 	$sym = $_[0];
 	return "" if (!$sym);
 
-	if ($sym =~ /U([0-9A-Fa-f]+)/) {
+	if ($sym =~ /^U([0-9A-Fa-f]{4,6})$/) {
 		 return chr(hex($1));
 	} elsif ($symmap{$sym}) {
 		 $symmap{$sym};
-- 
2.43.0


From d36ed3dce52fc2fbfc72fe2900e3bafb5dc3cf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:15 +0000
Subject: [PATCH 67/70] fix: dump-xkb-config: do not lose the key and the
 symbol 0

---
 scripts/dump-xkb-config | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/scripts/dump-xkb-config b/scripts/dump-xkb-config
index 2a18a73..5c9ffcf 100755
--- a/scripts/dump-xkb-config
+++ b/scripts/dump-xkb-config
@@ -65,11 +65,11 @@ while (<FH>) {
 
 sub sym_to_char {
 	$sym = $_[0];
-	return "" if (!$sym);
+	return "" if (!defined $sym);
 
 	if ($sym =~ /^U([0-9A-Fa-f]{4,6})$/) {
 		 return chr(hex($1));
-	} elsif ($symmap{$sym}) {
+	} elsif (defined $symmap{$sym}) {
 		 $symmap{$sym};
 	} else {
 		print STDERR "Could not resolve sym: $sym\n";
@@ -78,14 +78,14 @@ sub sym_to_char {
 }
 
 for (`xmodmap -pke`) {
-	if (/keycode\s*([0-9]+)\s*=\s*(.*)/ && $codemap{$1}) {
+	if (/keycode\s*([0-9]+)\s*=\s*(.*)/ && defined $codemap{$1}) {
 		$key = $codemap{$1};
 		@syms=split " ", $2;
 
-		$keymap{$key} = $sym if ($sym = sym_to_char $syms[0]);
-		$shifted_keymap{$key} = $sym if ($sym = sym_to_char $syms[1]);
-		$altgr_keymap{$key} = $sym if ($sym = sym_to_char $syms[4]);
-		$shifted_altgr_keymap{$key} = $sym if ($sym = sym_to_char $syms[5]);
+		$keymap{$key} = $sym if (($sym = sym_to_char $syms[0]) ne "");
+		$shifted_keymap{$key} = $sym if (($sym = sym_to_char $syms[1]) ne "");
+		$altgr_keymap{$key} = $sym if (($sym = sym_to_char $syms[4]) ne "");
+		$shifted_altgr_keymap{$key} = $sym if (($sym = sym_to_char $syms[5]) ne "");
 	}
 }
 
-- 
2.43.0


From 61bdf0ed0d8c6de8b6cb2e559c1b60458bae9617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:19 +0000
Subject: [PATCH 68/70] fix: dump-xkb-config: use the first of several layouts
 as the name

---
 scripts/dump-xkb-config | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/dump-xkb-config b/scripts/dump-xkb-config
index 5c9ffcf..81470bf 100755
--- a/scripts/dump-xkb-config
+++ b/scripts/dump-xkb-config
@@ -89,7 +89,7 @@ for (`xmodmap -pke`) {
 	}
 }
 
-`setxkbmap -query` =~ /layout:\s*(\S*)/;
+`setxkbmap -query` =~ /layout:\s*([^\s,]*)/;
 $shift_layer = "$1_shift";
 
 print "[$1:layout]\n\n";
-- 
2.43.0


From 73bf4e78a56d214da7d7f0ccc76fff8b38a2a4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:23 +0000
Subject: [PATCH 69/70] fix: gnome extension: one line per message, whatever
 the window is called

---
 data/gnome-extension-45/extension.js | 13 ++++++++++---
 data/gnome-extension/extension.js    | 13 ++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/data/gnome-extension-45/extension.js b/data/gnome-extension-45/extension.js
index 0d1968b..bd21539 100644
--- a/data/gnome-extension-45/extension.js
+++ b/data/gnome-extension-45/extension.js
@@ -20,10 +20,17 @@ function makePipe() {
 	return path;
 }
 
-function send(msg) {
+// One line per message, whatever the names contain.
+function sanitize(s) {
+	return `${s}`.replace(/[\t\r\n]/g, ' ');
+}
+
+function send(cls, title) {
 	if (!pipe)
 		return;
 
+	const msg = `${sanitize(cls)}	${sanitize(title)}\n`;
+
 	try {
 		pipe.write(msg, null);
 	} catch {
@@ -45,12 +52,12 @@ export default class KeydExtension extends Extension {
 			const cls = win ? win.get_wm_class() : 'root';
 			const title = win ? win.get_title() : '';
 
-			send(`${cls}	${title}\n`);
+			send(cls, title);
 		});
 
 		Main.layoutManager.connectObject(
 			'system-modal-opened', () => {
-				send(`system-modal	${global.stage.get_title()}\n`);
+				send('system-modal', global.stage.get_title());
 			},
 			this
 		);
diff --git a/data/gnome-extension/extension.js b/data/gnome-extension/extension.js
index a11f4b6..3502893 100644
--- a/data/gnome-extension/extension.js
+++ b/data/gnome-extension/extension.js
@@ -19,10 +19,17 @@ function makePipe() {
 	return path;
 }
 
-function send(msg) {
+// One line per message, whatever the names contain.
+function sanitize(s) {
+	return `${s}`.replace(/[\t\r\n]/g, ' ');
+}
+
+function send(cls, title) {
 	if (!pipe)
 		return;
 
+	const msg = `${sanitize(cls)}	${sanitize(title)}\n`;
+
 	try {
 		pipe.write(msg, null);
 	} catch {
@@ -45,12 +52,12 @@ function init() {
 				const cls = win ? win.get_wm_class() : 'root';
 				const title = win ? win.get_title() : '';
 
-				send(`${cls}	${title}\n`);
+				send(cls, title);
 			});
 
 			Main.layoutManager.connectObject(
 				'system-modal-opened', () => {
-					send(`system-modal	${global.stage.get_title()}\n`);
+					send('system-modal', global.stage.get_title());
 				},
 				this
 			);
-- 
2.43.0


From 9e3722266e878a7200fd0524e2c67a135da8d0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:27 +0000
Subject: [PATCH 70/70] fix: gnome extension: disconnect signal handlers when
 disabled

---
 data/gnome-extension-45/extension.js | 4 +++-
 data/gnome-extension/extension.js    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/data/gnome-extension-45/extension.js b/data/gnome-extension-45/extension.js
index bd21539..b07abc7 100644
--- a/data/gnome-extension-45/extension.js
+++ b/data/gnome-extension-45/extension.js
@@ -47,7 +47,7 @@ function on_pipe_open(file, res) {
 
 export default class KeydExtension extends Extension {
 	enable() {
-		Shell.WindowTracker.get_default().connect('notify::focus-app', () => {
+		this.focusSignal = Shell.WindowTracker.get_default().connect('notify::focus-app', () => {
 			const win = global.display.focus_window;
 			const cls = win ? win.get_wm_class() : 'root';
 			const title = win ? win.get_title() : '';
@@ -66,6 +66,8 @@ export default class KeydExtension extends Extension {
 	}
 
 	disable() {
+		Shell.WindowTracker.get_default().disconnect(this.focusSignal);
+		Main.layoutManager.disconnectObject(this);
 		GLib.spawn_command_line_async('pkill -f keyd-application-mapper');
 	}
 }
diff --git a/data/gnome-extension/extension.js b/data/gnome-extension/extension.js
index 3502893..113f609 100644
--- a/data/gnome-extension/extension.js
+++ b/data/gnome-extension/extension.js
@@ -47,7 +47,7 @@ function on_pipe_open(file, res) {
 function init() {
 	return {
 		enable: function() {
-			Shell.WindowTracker.get_default().connect('notify::focus-app', () => {
+			this.focusSignal = Shell.WindowTracker.get_default().connect('notify::focus-app', () => {
 				const win = global.display.focus_window;
 				const cls = win ? win.get_wm_class() : 'root';
 				const title = win ? win.get_title() : '';
@@ -66,6 +66,8 @@ function init() {
 		},
 
 		disable: function() {
+			Shell.WindowTracker.get_default().disconnect(this.focusSignal);
+			Main.layoutManager.disconnectObject(this);
 			GLib.spawn_command_line_async('pkill -f keyd-application-mapper');
 		}
 	}
-- 
2.43.0

