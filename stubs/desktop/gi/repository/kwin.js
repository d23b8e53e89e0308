// the part of KWin which runs scripts
const fs = require('fs'), vm = require('vm'), rl = require('readline');
const [version, script] = process.argv.slice(2);
const mk = () => {
	const h = [];
	return {h, disconnect: () => 0, connect: f => {
		if (typeof f !== 'function')
			throw new TypeError('not a function');
		h.push(f);
	}};
};
const sig = mk();
let out = [], err = null;
const ctx = {
	workspace: version === '6' ? {windowActivated: sig, windowAdded: mk(), windowRemoved: mk()} : {clientActivated: sig, clientAdded: mk(), clientRemoved: mk()},
	callDBus: (...a) => { out.push(a.filter(x => typeof x !== 'function')); },
	print: () => 0,
	console: {log: () => 0, info: () => 0},
	readConfig: (k, d) => d,
};
try {
	vm.runInNewContext(fs.readFileSync(script, 'utf8'), ctx);
} catch (e) {
	err = String(e);
}
rl.createInterface({input: process.stdin}).on('line', l => {
	out = [];
	const c = JSON.parse(l);
	for (const f of sig.h) {
		try {
			f(c);
		} catch (e) {
			err = String(e);
		}
	}
	process.stdout.write(JSON.stringify({out, err}) + '\n');
});
