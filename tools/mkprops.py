#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One P(...) call per property."""
import json, os
OUT = []
def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    OUT.append(dict(id=id, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=over.split(), text=qtext), why_tests_cant=' '.join(why.split()),
        anchors=dict(files=files.split(), state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=hook)))

UI = 'events written to the virtual input devices'
KB = 'src/keyboard.c'

# ------------------------------------------------------------------ robustness
P('R01', 'A config file can never take the daemon down',
  '''Whatever bytes the files in the config directory (and the files they include) contain, starting or reloading the daemon
  never crashes it, corrupts its memory, aborts it or makes it hang. It keeps running, and keyboards matched by another,
  valid config keep being remapped.''',
  'inputs configurations', 'every byte string as the content of a config or included file, including over-long lines, sections, names, argument lists, NUL bytes, invalid UTF-8, and files at the size limits',
  'The tests parse one fixed, valid config; no malformed, oversized or binary file is ever loaded.',
  'src/config.c src/ini.c src/string.c src/keys.c src/macro.c', [('bounded line/file reader', 'config.c read_file'), ('ini tokenizer', 'ini.c ini_parse_string'), ('descriptor parser', 'config.c parse_descriptor')],
  observe=['process exit status', 'sanitizer reports', UI])
P('R02', 'A bad config line costs only that line',
  '''If some lines of a config are invalid (unknown key, action, layer, option or alias, a layer that is not of the required kind, wrong argument count, missing value, more of something than fits), each is
  skipped and every other line of the file takes effect exactly as it would in the file with the bad lines removed (lines within the
  length limit, inside a section); a layer type that does not exist is ignored. An invalid binding is reported in the log with the number of its line.''',
  'configurations inputs', 'every mix of valid lines with invalid ones at any position of any section',
  'No test config contains an invalid line.',
  'src/config.c src/ini.c', [('per-entry error handling', 'config.c config_parse_string'), ('line numbers', 'ini.c ini_parse_string')], observe=[UI, 'log output'])
P('R03', 'No sequence of key events can crash or wedge the daemon',
  '''For every loadable config and every timed sequence of key, mouse and LED events (any number of keys held at once, any key codes, wheel and motion values of bounded size,
  repeated or missing releases, any delays) the daemon stays alive, commits no memory error or undefined behaviour,
  trips no internal assertion, and remains responsive to the next event.''',
  'configurations inputs histories schedules', 'every config accepted by the parser x every finite timed event sequence from any number of devices',
  'The tests replay 90 short hand-written sequences over one config; queue, timer, chord and cache capacity limits are never reached.',
  'src/keyboard.c src/daemon.c src/evloop.c src/device.c', [('event queues and timer table', 'keyboard.c pending_key/chord/timeouts'), ('event decoding', 'device.c device_read_event')], observe=['process exit status', 'sanitizer reports', UI])
P('R04', 'No IPC client can kill, freeze or starve the daemon',
  '''A client of the control socket that disconnects early, sends a truncated, oversized, unknown or slow message, never reads its reply, or
  subscribes and then stalls or disappears never terminates the daemon, and delays key processing by at most a bounded time.
  Later clients and all key events are still served normally.''',
  'fault_sequences schedules inputs', 'every client behaviour (connect/send prefix/pause/close/not read) at every point of the exchange, interleaved with key events and other clients',
  'No test opens the socket at all.',
  'src/daemon.c src/ipc.c src/util.c', [('client handling', 'daemon.c handle_client'), ('socket I/O', 'util.c xread/xwrite'), ('listener back-pressure', 'daemon.c add_listener/on_layer_change')], observe=['process exit status', 'virtual-time of outputs', 'replies to later clients'])
P('R05', 'Arbitrary IPC payloads are handled safely and always answered',
  '''For every payload of a bind, input or do request (arbitrary bytes, any length up to the limit, any timeout value) the daemon commits no memory error,
  does not abort, and sends exactly one reply which is either success or a failure with a reason. A request that is
  refused as a binding leaves all existing bindings working as before.''',
  'inputs', 'every byte string and length as request payload, every request type',
  'No test sends an IPC request.',
  'src/daemon.c src/macro.c src/config.c src/string.c', [('request dispatch', 'daemon.c handle_client'), ('macro parser', 'macro.c macro_parse'), ('binding parser', 'config.c config_add_entry')], observe=['reply message', 'sanitizer reports', UI])
P('R06', 'Descriptors are conserved across clients, hotplug and reloads',
  '''After any number of client connections, listener disconnections, device additions, removals and unusable devices, and reloads, the
  daemon holds exactly one open descriptor per present usable device and per live listener besides its fixed set (a listener which has gone may be noticed only at the next layer change); nothing else stays open
  and nothing is closed twice.''',
  'histories fault_sequences', 'every finite history of connects, disconnects, hotplug events, failing device probes and reloads',
  'No test opens a device or a socket.',
  'src/device.c src/daemon.c src/evloop.c', [('device open/close', 'device.c device_init, evloop.c removal'), ('client close', 'daemon.c send_success/send_fail')], observe=['open/close/accept system calls', 'open descriptors at quiescence'])
P('R07', 'Parallel device discovery is free of data races',
  '''Whatever input devices exist at start-up (up to 64 are used), including ones that cannot be opened or probed and at every log level, concurrent probing
  contains no data race, and the set of devices found does not depend on thread timing.''',
  'schedules inputs', 'every set of device nodes (working or failing) x every interleaving of the probing threads x every debug level',
  'No test probes devices or runs more than one thread.',
  'src/device.c src/log.c', [('worker-private results', 'device.c device_scan'), ('log formatting', 'log.c')], observe=['race detector', 'set of devices opened and grabbed'])
P('R08', 'The panic sequence always ends keyd and nothing else does',
  '''As soon as escape, backspace and enter are held down simultaneously on the input devices (each on any of them, keyd's own virtual keyboard included), under any config and in any internal state, the daemon
  terminates. No event history in which those three keys are never down at once terminates it.''',
  'inputs histories configurations', 'every config and history; every press order of the three keys, on one or several keyboards; mouse, LED and other events mixed in',
  'The event loop is not run by any test.',
  'src/evloop.c', [('panic detection', 'evloop.c panic_check')], observe=['process exit'])
P('R09', 'Only one daemon runs, and its socket is private',
  '''While a daemon is running a second one refuses to start and leaves the first one, its socket and its devices undisturbed; after the first
  has ended, in any way and with any command it launched still running, a new one can start at once. The control socket is never accessible to
  users other than its owner and group.''',
  'schedules crash_points fault_sequences', 'every order of starts, kills and restarts, with stale socket/lock files and surviving child processes, and every umask',
  'No test starts the daemon.',
  'src/ipc.c src/daemon.c', [('lock file', 'ipc.c ipc_create_server flock'), ('socket mode', 'ipc.c chmod')], observe=['exit status of second instance', 'mode of the socket file', 'replies of first instance'])

# ------------------------------------------------------------------ engine
P('E01', 'Nothing stays pressed once every key is up and timers have run out',
  '''Once all physical keys have been released and all time-outs have elapsed, no key is left pressed on the virtual devices except the modifiers
  of layers the user has deliberately latched (toggled on, or a still armed one-shot). This holds for every config and event history within the documented
  limits.''',
  'configurations inputs histories schedules', 'every config built from the documented actions (nested, on any layer) x every well-formed timed event history ending with all keys up',
  'Tests check a few dozen fixed sequences; the combination of actions, layers and interleavings is unbounded.',
  KB, [('press/release pairing', 'keyboard.c cache_set/cache_get'), ('modifier recomputation', 'keyboard.c update_mods')],
  [('keystate', 'keys currently held on the output', 'keyboard.c struct keyboard'), ('layer_state', 'active/toggled/oneshot counters', 'keyboard.c')], [UI])
P('E02', 'Unbound keys pass through unchanged',
  '''A key with no explicit binding on any active layer produces exactly its own press and its own release, in order, once each, and at the time it
  is struck, whatever else is configured for other keys (with no pending tap/hold decision or chord; clear and setlayout actions may release it early).''',
  'inputs configurations histories', 'every key code keyd knows, every rollover pattern of up to 16 keys, on configs that bind other keys',
  'Tests touch about 40 of 250 key codes.',
  'src/keyboard.c src/device.c src/vkbd/uinput.c', [('default descriptor', 'keyboard.c lookup_descriptor'), ('code translation', 'device.c device_read_event, vkbd/uinput.c write_key_event')], observe=[UI])
P('E03', 'A release always undoes what its own press did',
  '''When a key is released, what is undone is exactly the action its press performed, even if layers, layouts or bindings changed while it was
  held. In particular the key emitted on press is the key released, exactly once (unless another held key emits the same one), and a held layer is left exactly when the key that
  entered it is released.''',
  'inputs histories schedules', 'every interleaving of key presses/releases with layer, layout and binding changes',
  'Tests have a handful of mid-stroke layer changes.',
  KB, [('descriptor cache', 'keyboard.c cache_set/cache_get in process_event')], [('cache', 'held key -> action chosen at press time', 'keyboard.c')], [UI])
P('E04', 'The most recently activated layer that binds a key wins',
  '''A key press performs the binding found in the most recently activated of the active layers that bind that key, except that a composite layer all of whose
  constituents are active takes precedence (the one with most constituents first); if none binds it the main layer or the key itself is
  used. Layers that do not bind the key never affect which action is chosen.''',
  'configurations inputs histories', 'every set of layers, composites and layouts, every activation order and mechanism, every key',
  'Tests use one fixed set of layers and a few activation orders.',
  KB, [('lookup by activation time', 'keyboard.c lookup_descriptor')], [('activation_time', 'order in which layers were activated', 'keyboard.c layer_state')], [UI])
P('E05', 'Each emitted key carries exactly the right modifiers',
  '''Whenever a key is emitted for a binding, the modifiers held on the output at that moment are those of the active layers, without those of the layer
  (or composite constituents) the binding belongs to, plus those the binding itself asks for. Afterwards the held modifiers are again those of the active layers.''',
  'configurations inputs histories', 'every combination of modifier layers, bindings with modifiers, composite layers and interleavings of their keys',
  'Tests sample a few modifier combinations.',
  KB, [('modifier synthesis', 'keyboard.c update_mods/set_mods')], observe=[UI])
P('E06', 'Synthetic modifier releases are never seen as a modifier tap',
  '''When keyd lifts or drops meta, alt or altgr by itself with nothing typed since it was pressed, an extra control tap separates press and release so that no program sees a bare tap of
  that modifier; when the user really taps the modifier key alone, or disable_modifier_guard is set, no extra control is emitted.''',
  'configurations inputs histories', 'every config and history with modifier layers on meta, alt and altgr, guard enabled or disabled',
  'Two tests cover one sequence each.',
  KB, [('guard', 'keyboard.c clear_mod'), ('inhibition on real taps', 'keyboard.c inhibit_modifier_guard')], observe=[UI])
P('E07', 'overload: tap action only on an uninterrupted tap, layer otherwise',
  '''A key bound to overload() activates its layer immediately and for exactly as long as it is held; its tap action runs, once, on release if and only if no other key was pressed in between and, when
  overload_tap_timeout is set, it was held for less than that time. The tap action may be any action, and leaves nothing active behind when it is over.''',
  'configurations inputs schedules', 'every nested tap action, layer, hold duration around the timeout and interleaving of other keys',
  'Tests fix one timeout and a few tap actions.',
  KB, [('overload on release', 'keyboard.c OP_OVERLOAD')], observe=[UI])
P('E08', 'Timed tap/hold keys resolve as documented for every timing',
  '''overloadt resolves to its layer exactly when held for the timeout and to its tap action exactly when released earlier; overloadt2 additionally becomes the layer as soon as another key is tapped
  during the hold; timeout() performs its first action when released or interrupted by another key before the timeout and its second otherwise. Keys struck while the decision is open act on the state the decision produces; more events than the queue holds (about 32) force the hold decision early.''',
  'configurations inputs schedules', 'every timeout value and every relative timing (before, exactly at, after) of releases and other keys, any nesting',
  'Tests fix a handful of timings.',
  KB, [('pending key', 'keyboard.c handle_pending_key')], [('pending_key', 'undecided key with queued events', 'keyboard.c')], [UI])
P('E09', 'overloadi and lettermod choose by time since the last typed symbol',
  '''overloadi performs its first action if the last symbol key was struck less than the idle timeout ago and its second otherwise, where only plain or shifted
  key strokes count as symbols; lettermod(layer, key, idle, hold) behaves exactly like overloadi(key, overloadt2(layer, key, hold), idle).''',
  'configurations inputs schedules', 'every idle/hold timeout, nesting, and timing of preceding keys around the threshold',
  'No test uses either action.',
  'src/keyboard.c src/config.c', [('idle decision', 'keyboard.c OP_OVERLOAD_IDLE_TIMEOUT'), ('lettermod expansion', 'config.c parse_descriptor')], [('last_simple_key_time', 'time of the last symbol', 'keyboard.c')], [UI])
P('E10', 'Deferred keystrokes are never lost, duplicated or reordered',
  '''While a tap/hold or chord decision is open, other keys may be delayed, but each of their presses and releases is emitted exactly once and in the
  order typed when the decision falls (key-ups of keys pressed before it excepted, which may go out at once). The number of keys typed during the decision does not matter: when the queue is full the decision is taken as a hold and nothing is lost.''',
  'inputs schedules histories', 'every burst of keys typed during any open decision, of any length, for any timeout',
  'Tests defer at most three keys.',
  KB, [('pending queue and chord queue', 'keyboard.c handle_pending_key, resolve_chord')], observe=[UI])
P('E11', 'A one-shot layer affects exactly the next keystroke',
  '''Tapping a oneshot() key leaves its layer active for the next key stroke only (several one-shots accumulate); held, it acts as an ordinary layer key; it is consumed by the next key, by a mouse click, by a
  macro, command, toggle or clear, or by oneshot_timeout elapsing, whichever comes first, and by nothing else. oneshotm additionally executes its macro once at each press.''',
  'configurations inputs schedules', 'every sequence of oneshot taps/holds, other keys, clicks, timeouts and layer kinds',
  'Tests use fixed sequences and no clicks.',
  'src/keyboard.c src/daemon.c', [('oneshot latch/depth', 'keyboard.c OP_ONESHOT, clear_oneshot'), ('external click', 'daemon.c event_handler')], observe=[UI])
P('E12', 'toggle and clear keep layer state exact',
  '''Each press of a toggle()/togglem() key flips its layer between on and off, it stays so after release and until toggled again or cleared, and any key bound to the same toggle can end it. clear()/clearm() deactivates all toggled and
  one-shot layers and releases every key held on the output, but not the current layout, and leaves layers held by pressed keys to end with those keys.''',
  'configurations inputs histories', 'every interleaving of toggles, clears, held layers and ordinary keys',
  'A few fixed sequences are tested.',
  KB, [('toggle/clear', 'keyboard.c OP_TOGGLE, clear')], observe=[UI])
P('E13', 'swap exchanges the layer for the rest of the activating hold',
  '''swap()/swapm() replaces the layer its binding was found in by the given one: a toggled layer by a toggled one, a pending one-shot by a pending one-shot, and a held layer for exactly the rest of the hold of the key that
  activated it; afterwards neither layer remains active. It never changes the state of any other layer.''',
  'configurations inputs histories', 'every activation mechanism of the swapped layer and interleaving of keys, chains of swaps',
  'Nine fixed sequences are tested.',
  KB, [('swap', 'keyboard.c OP_SWAP')], observe=[UI])
P('E14', 'Exactly one layout is in force and it survives everything but setlayout',
  '''setlayout() makes the given layout the only one in effect, under all layers, until the next setlayout; setlayout(main) returns to the plain layout; default_layout selects the initial
  one. Layers, modifiers, one-shots and toggles keep priority over the layout, and clear() does not change it.''',
  'configurations inputs histories', 'every set of layouts, switching sequences and interleaving with layers and modifiers',
  'Four fixed sequences are tested.',
  KB, [('setlayout', 'keyboard.c setlayout, new_keyboard')], observe=[UI])
P('E15', 'A chord fires exactly when all its keys are struck in time',
  '''Striking all keys of a chord within chord_timeout of one another in any order (and, if set, holding them for chord_hold_timeout) performs the chord action once in place of the individual keys and ends it when the last of them is released; overlapping chords resolve to
  the largest one completed in time. In every other case (another key struck, or one of its keys released, before it is resolved) the keys act individually, in order and with nothing lost. Up to three chords can be held at once.''',
  'configurations inputs schedules', 'every set of (overlapping) chords on any layers, press order, inter-key delay around the limits, release order',
  'A few fixed chords with fixed timing are tested.',
  KB, [('chord state machine', 'keyboard.c handle_chord'), ('chord lookup', 'config.c layer_lookup_chord')], [('chord', 'chord state and queued events', 'keyboard.c')], [UI])
P('E16', 'A macro emits exactly its written sequence and ends neutral',
  '''Executing a macro presses and releases exactly the keys its expression lists, in order, with the listed modifiers and pauses and no modifiers of the triggering layer, and emits nothing else; every key it
  presses it also releases. Groups joined by + are held together and released together.''',
  'inputs configurations', 'every macro expression: keys, modified keys, text, unicode, + groups, pauses and their mixtures',
  'About ten fixed macros are tested.',
  'src/macro.c src/config.c', [('macro parser', 'macro.c macro_parse'), ('macro player', 'macro.c macro_execute')], observe=[UI, 'virtual time of outputs'])
P('E17', 'Macros repeat on schedule exactly while their key is held alone',
  '''A macro bound to a held key repeats first after macro_timeout and then every macro_repeat_timeout (macro2: its own two values) until the key is released or
  another key event arrives, and never after that (chords aside). Each repetition is a complete execution.''',
  'configurations inputs schedules', 'every timeout pair, macro and time of interruption relative to the repeat instants',
  'Three tests with one timing.',
  KB, [('macro repeat', 'keyboard.c process_event active_macro')], observe=[UI, 'virtual time of outputs'])
P('E18', 'Timeouts fire on time, whatever the uptime',
  '''Every configured timeout takes effect when it is due, not earlier and at most a few milliseconds later, also when no further event arrives, when unrelated events arrive in the meantime, and when several
  timeouts are pending. Behaviour depends only on time differences: shifting all times by any uptime changes nothing.''',
  'schedules inputs histories', 'every set of concurrently pending timeouts, interleaved irrelevant events, and any clock offset up to years of uptime',
  'Tests use simulated timestamps starting at 0 and never run the event loop.',
  'src/keyboard.c src/evloop.c src/daemon.c', [('next wake-up', 'keyboard.c calculate_main_loop_timeout'), ('poll timeout', 'evloop.c evloop')], [('timeouts', 'pending deadlines', 'keyboard.c')], ['poll timeouts', UI])

# ------------------------------------------------------------------ daemon
P('D01', 'Exactly the right devices are captured, each by the right config',
  '''A device is grabbed if and only if some config lists its id (respecting k:/m: type prefixes and prefix matching) or is a wildcard that does not exclude it, and it is then remapped by the config that lists it explicitly in preference to a wildcard (an exclusion being listed before the ids it restricts; among configs of equal rank either may win). A
  wildcard never captures a device that is only a mouse, excluded devices are never captured by the config excluding them, keyd's own virtual devices are never captured, and other devices (among them those which neither point nor have all the keys a keyboard has) are left alone.''',
  'configurations inputs', 'every set of devices (ids, names, capabilities) x every set of config files with ids, prefixes, exclusions and wildcards, in any order',
  'No test matches devices.',
  'src/daemon.c src/config.c src/device.c', [('matching', 'config.c config_check_match, daemon.c lookup_config_ent'), ('capability detection', 'device.c resolve_device_capabilities')], observe=['grab requests', UI])
P('D02', 'Hotplug: devices come and go without losing or leaking input',
  '''A matching device plugged in at any time is captured and remapped from then on, and keys typed before the capture are not swallowed or left pressed; when a device disappears the others keep working, nothing it held stays pressed, and re-adding it works. A device whose probing or capture
  fails is skipped without affecting anything else.''',
  'schedules fault_sequences histories', 'every interleaving of additions, removals (with keys held), probe/grab failures and typing on all devices',
  'No test uses devices.',
  'src/device.c src/evloop.c src/daemon.c', [('monitoring', 'device.c devmon_read_device'), ('grab when neutral', 'device.c device_grab'), ('removal', 'evloop.c')], observe=['device system calls', UI])
P('D03', 'Reload is equivalent to a fresh start with the new files',
  '''After a reload every output key is released, and from then on the daemon behaves exactly as one freshly started on the current files and devices: old bindings, layers, pending decisions and dynamic binds are gone,
  devices that no longer match are released and newly matching ones captured. It is safe at any moment, including with keys held, listeners connected and decisions pending.''',
  'histories schedules configurations', 'every moment of a history at which reload can arrive x every change of the config directory',
  'No test reloads.',
  'src/daemon.c src/config.c', [('reload', 'daemon.c reload, clear_vkbd, manage_device')], observe=[UI, 'grab requests', 'reply'])
P('D04', 'A runtime binding acts like the same line in the config; reset restores',
  '''After a successful "bind [layer.]key = action" the daemon behaves as if that line were the last one in that layer of every loaded config (within capacity: 256 macros, 64 commands, 1024 actions per config); a later bind of the same key replaces it, a failed one changes nothing and is reported as failed, and "bind reset" restores exactly
  the bindings of the files. Keys held during a bind still release correctly.''',
  'inputs histories configurations', 'every sequence of bind/reset requests over all actions and layers, interleaved with typing',
  'No test sends a bind request.',
  'src/daemon.c src/keyboard.c src/config.c', [('runtime evaluation', 'keyboard.c kbd_eval, config.c config_add_entry')], observe=[UI, 'reply'])
P('D05', 'listen reports the layer state exactly',
  '''A listener first receives the current layout and every active layer of the most recently used keyboard (nothing before any key has been typed), and then, until the next reload, one line each time a layer becomes active (+) or inactive (-) and for each layout selection (/) in the order they happen, so that replaying its lines always yields the true set of active layers. This holds for every listener
  (of up to 32) independently of how many others exist, stall or leave.''',
  'histories schedules fault_sequences', 'every history of layer changes by any mechanism, with listeners joining and leaving at any time',
  'No test connects a listener.',
  'src/daemon.c src/keyboard.c', [('notification', 'daemon.c on_layer_change'), ('snapshot', 'daemon.c add_listener')], observe=['bytes received by listeners', UI])
P('D06', 'input types exactly the given text; do plays exactly the given macro',
  '''"input" emits key strokes that, on a US layout with the shipped compose table, produce exactly the given text (ASCII, newline, tab, and every supported unicode character) and nothing else, with the requested delay, and answers failure if a character is unsupported; "do" emits exactly what the
  same macro expression bound to a key would. Both leave every key they pressed released.''',
  'inputs', 'every text and macro expression up to the message limit, every delay',
  'No test sends IPC requests.',
  'src/daemon.c src/macro.c src/unicode.c', [('text input', 'daemon.c input'), ('macro execution', 'macro.c macro_execute')], observe=[UI, 'reply'])
P('D07', 'A command runs exactly once per press, isolated from the daemon',
  '''Each press of a command() key starts exactly the configured shell command once, with standard streams on /dev/null and no descriptor of the daemon (devices, sockets, lock, inotify) inherited; the daemon continues handling keys without waiting for it and leaves no zombie. Nothing is executed
  for releases, repeats or other keys.''',
  'configurations inputs schedules', 'every command string and every interleaving of command keys with other events, with commands of any duration',
  'No test executes a command.',
  'src/keyboard.c src/config.c', [('double fork', 'keyboard.c execute_command'), ('unescaping', 'config.c parse_command')], observe=['exec calls with inherited descriptors', 'child processes', UI])
P('D08', 'Pointer movement, wheel and buttons of captured mice pass through',
  '''For a captured mouse every movement, wheel step and button event appears on the virtual pointer with the same axis, sign and amount (absolute positions as the same fraction of the axis range, those outside it as its edge), exactly once and in order with respect to keys, unless the user bound that button or wheel direction, in which case the binding is performed once per step. Scroll
  mode turns vertical motion into wheel steps without losing or inventing distance.''',
  'inputs configurations histories', 'every mix of relative motion, wheel, button and key events with any values, with and without bindings and scroll mode',
  'No test involves a mouse.',
  'src/daemon.c src/device.c src/vkbd/uinput.c', [('mouse handling', 'daemon.c event_handler'), ('pointer output', 'vkbd/uinput.c')], observe=[UI])
P('D09', 'Keyboards of one config share state; different configs are independent',
  '''All keyboards captured by the same config behave as one keyboard: a layer key held on one affects the others, whichever of them comes and goes; their strokes are handled in the order read. Keyboards captured by different configs never affect each other's layers, pending decisions
  or timeouts.''',
  'schedules configurations histories', 'every interleaving of timed histories on two or more keyboards, sharing a config or not',
  'Tests have a single keyboard and no device layer.',
  'src/daemon.c src/evloop.c', [('per-config keyboard', 'daemon.c load_configs, manage_device'), ('timer routing', 'daemon.c event_handler')], observe=[UI])
P('D10', 'Indicator lights reach the physical keyboards',
  '''Every LED change the system sends to the virtual keyboard is forwarded, with the same light and value, to every captured device and to no other. With layer_indicator set the caps-lock light of the
  captured keyboards of that config is on exactly while a non-layout layer other than main is active (for keyboards the system itself leaves alone), and without it layer changes never touch a light.''',
  'histories configurations', 'every history of LED events and layer changes with any set of devices',
  'No test has devices.',
  'src/daemon.c src/device.c', [('LED propagation', 'daemon.c event_handler, on_layer_change'), ('LED write', 'device.c device_set_led')], observe=['events written to physical devices'])

# ------------------------------------------------------------------ config language
P('C01', 'include behaves as if the file were pasted in place, and is confined',
  '''A config using "include <file>" behaves exactly like the same config with the contents of that file in place of the line (looked up next to the config first, then in the shared data directory), whether or not the
  file ends in a newline (the include line starting at the first column). A name with an extension, a missing or an unreadable file is reported and otherwise ignored, and nested includes are not expanded.''',
  'configurations inputs', 'every split of a config into including and included files, at any position, with any line endings',
  'No test uses include.',
  'src/config.c', [('inclusion', 'config.c read_file, resolve_include_path')], observe=[UI, 'log output'])
P('C02', 'Equivalent config spellings behave identically',
  '''Indentation, blank lines, comments, trailing blanks, a missing final newline, spaces around =, alternative names of the same key, splitting a layer into several sections of that name (the first fixing its type), or listing overridden earlier bindings do not change
  behaviour: the last binding of a key in a layer wins. Order matters only between bindings of the same key and for composite layers after their constituents.''',
  'configurations', 'every config and every semantics-preserving rewriting of it',
  'One fixed spelling of one config is tested.',
  'src/config.c src/ini.c src/keys.c', [('ini parser', 'ini.c'), ('layer lookup/merge', 'config.c config_add_layer, set_layer_entry')], observe=[UI])
P('C03', 'An alias stands for all of its keys',
  '''A binding written for an alias has exactly the effect of the same binding written for each key assigned to it, in every layer and at run time; a key has at most its latest alias, and the built-in aliases (shift, control, meta, alt, altgr) exist by
  default. An alias that is itself a key name makes its keys act as that key by default.''',
  'configurations inputs', 'every alias section and every use of aliases as left-hand side, in files and bind requests',
  'No test defines an alias.',
  'src/config.c', [('aliases', 'config.c parse_alias_section, set_layer_entry')], observe=[UI])
P('C04', 'Every global option has exactly its documented effect and default',
  '''Each option of [global] (macro_timeout, macro_repeat_timeout, macro_sequence_timeout, chord_timeout, chord_hold_timeout, oneshot_timeout, overload_tap_timeout, disable_modifier_guard, default_layout, layer_indicator) governs its own behaviour with the configured value (up to 65535 ms), or its documented default
  when absent, independently of the other options, of where the section appears and of other config files.''',
  'configurations inputs', 'every assignment of values to every subset of the options, in any position',
  'The test config sets two options to one value.',
  'src/config.c src/keyboard.c', [('globals', 'config.c parse_global_section, config_init')], observe=[UI, 'virtual time of outputs'])
P('C05', 'Every key name means the same key everywhere',
  '''Every name printed by list-keys is accepted on either side of a binding, in macros and in bind requests, and denotes one key: binding it, emitting it and watching it with monitor agree, and shifted names, which are valid on the right-hand side only, emit shift plus the key. The kernel key code
  written for a name is one that is read as that name.''',
  'inputs', 'every name of list-keys and every key code (exhaustive)',
  'Tests mention about 40 of more than 300 names.',
  'src/keys.c src/keyd.c src/monitor.c src/config.c', [('key table', 'keys.c keycode_table'), ('sequence parser', 'keys.c parse_key_sequence')], observe=['list-keys output', 'monitor output', UI])
P('C06', 'Every supported unicode character decodes to itself',
  '''For every character the program accepts as unicode output, the emitted key sequence, looked up in the shipped compose file on a US layout, yields exactly that character, and no entry of the compose file is a prefix of or conflicts with another. A binding, a macro and "input" emit the same sequence for it.''',
  'inputs', 'every unicode code point (exhaustive over the table)',
  'Two characters are tested, against a constant rather than the compose file.',
  'src/unicode.c data/keyd.compose src/macro.c src/string.c', [('sequence encoding', 'unicode.c unicode_get_sequence'), ('utf-8 decoding', 'string.c utf8_read_char')], observe=[UI])
P('C07', 'Every shipped layout types the characters it lists',
  '''A config which includes one of the shipped layouts (from the config or the data directory) and selects it, by default_layout, setlayout() or a runtime binding, is accepted without complaint, no layout lists a control character, and each key a layout lists
  with a printable ASCII or supported unicode character types exactly that character, alone or with the modifiers (shift, altgr or both) whose section lists it, the keys being typed one after another. The shipped example configs are accepted without errors.''',
  'configurations inputs', 'every file of layouts/ and examples/ x every key of every section x orders and overlaps of strokes and modifiers',
  'No test loads a shipped layout or example.',
  'layouts/gr src/config.c src/ini.c src/macro.c src/keyboard.c', [('include', 'config.c read_file'), ('layout selection', 'keyboard.c setlayout, new_keyboard'), ('unicode macros with layer modifiers', 'keyboard.c execute_macro'), ('section headers', 'ini.c ini_parse_string')], observe=[UI, 'log output'])

P('C08', 'A layout dumped from X types what X types',
  '''The config printed by dump-xkb-config for the current X layout (the first one, if there are several) is accepted by keyd without errors, and selecting that layout makes each of the 48 letter, digit and punctuation keys type the character X has for it at its plain, shift, altgr and shift+altgr level
  (levels without a character, or with one keyd cannot type, aside), whatever the keysyms are called.''',
  'inputs', 'every table of keysyms',
  'No test runs the script.',
  'scripts/dump-xkb-config', [('keysym translation', 'dump-xkb-config sym_to_char'), ('level selection', 'dump-xkb-config'), ('layout output', 'dump-xkb-config')], observe=['text printed by the script', UI])

# ------------------------------------------------------------------ auxiliary programs
P('A01', 'The USB gadget backend reports exactly the keys held',
  '''After every key event the gadget backend sends one 8-byte boot-keyboard report whose modifier byte and key slots are exactly the held keys translated to their HID usages (up to six, earlier presses keeping their slot); releasing any key removes it and nothing else. Releasing everything
  yields an all-zero report (as long as the gadget device accepts writes).''',
  'inputs histories', 'every sequence of key events, including more than six keys and every key code',
  'The backend is not compiled into any test.',
  'src/vkbd/usb-gadget.c src/vkbd/usb-gadget.h', [('report state', 'usb-gadget.c update_key_state, send_hid_report')], observe=['reports written to the gadget device'])
P('A02', 'The application mapper applies exactly the bindings of the focused app',
  '''On Gnome, KDE, X and on wlroots and Cosmic wayland compositors: whenever the focused window changes, the mapper issues one reset followed by the bindings of exactly the sections of app.conf matching its class and title (globs against the names in lower case with other characters than letters and digits as dashes, in file order). Window names and titles with any characters neither break it nor run anything
  else. Under X the names are those of the window which has the focus or of its nearest ancestor with a class; a window kept above the others which is not a notification comes first.''',
  'inputs configurations histories', 'every app.conf and every sequence of focus events with arbitrary class and title strings',
  'No test runs the mapper.',
  'scripts/keyd-application-mapper', [('matching', 'keyd-application-mapper lookup_bindings, normalize'), ('update', 'on_window_change')], observe=['keyd bind invocations'])
P('A03', 'monitor and listen clients show every event faithfully',
  '''"keyd monitor" prints one line per key press and release of every attached device, in order, with that device's name and id and the key's name, and device additions and removals, without capturing any device. "keyd listen" prints exactly what the daemon reports, and "bind", "input", "do"
  and "reload" send exactly their arguments, print the reply and exit non-zero when it is a failure.''',
  'inputs histories', 'every sequence of device events; every argument list or standard input up to the limit',
  'No test runs the command line tools.',
  'src/monitor.c src/keyd.c src/ipc.c', [('monitor', 'monitor.c event_handler'), ('client commands', 'keyd.c')], observe=['standard output', 'bytes sent to the socket', 'exit status'])

P('A04', 'The Gnome extension reports every change of focus once',
  '''While the Gnome extension (either version) is enabled and a mapper reads its pipe, every change of the focused application and every system dialog is written as exactly one line, class and title separated by the first tab, whatever the names contain (tabs and line breaks become
  spaces); no window is "root". It keeps doing so, once each, when it is disabled and enabled again and when the mapper ends and starts; it starts the mapper when enabled and writes nothing while disabled.''',
  'histories inputs', 'every history of focus changes with arbitrary names, mapper restarts, and of the extension being disabled and enabled',
  'No test runs the extensions.',
  'data/gnome-extension data/gnome-extension-45', [('lines', 'extension.js send'), ('signals', 'extension.js enable, disable')], observe=['bytes written to the pipe', 'commands started'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for o in OUT:
        f.write(json.dumps(o, ensure_ascii=False) + '\n')
print(len(OUT))
