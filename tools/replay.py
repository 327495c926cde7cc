import json, sys, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
r = json.load(open(sys.argv[1]))
if r['kind'] != 'failing-input':
    print(json.dumps(r, indent=1)); sys.exit(1)
t = os.environ.get('VERIF_TARGET', os.path.join(V, '.build', 'target'))
env = dict(os.environ, RUSTUP_TOOLCHAIN='1.92.0', CARGO_TARGET_DIR=t, CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0')
subprocess.run(['cargo', 'build', '--offline', '--quiet'], cwd=os.path.join(V, 'drivers', r['driver']), env=env, check=True)
rc = 0
for c in r['cases']:
    e = dict(env, DRV_ONLY=str(c['index']))
    p = subprocess.run([os.path.join(t, 'debug', 'drv-' + r['driver']), 'run', r['property'], r['tier'], str(r['seed']), '/dev/stdout'], env=e)
    rc |= p.returncode
sys.exit(rc)
