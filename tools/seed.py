#!/usr/bin/env python3
"""seed.py SPECFILE [ids]: validate bugs and store them under /verif/seeded; then run the property's check against them"""
import sys, os, subprocess, json, shutil
ENV=dict(os.environ, HOME='/root', PATH='/usr/local/go/bin:/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin',GOPATH='/root/go',GOMODCACHE='/root/go/pkg/mod',GOCACHE='/root/.cache/go-build',GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off')
WT='/tmp/wt'
def sh(cmd, cwd, t=600, env=ENV):
    p=subprocess.run(cmd,shell=True,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t,errors='replace')
    return p.returncode,p.stdout
DEMO='''#!/bin/bash
# Builds demo.go inside the module through an overlay and runs it: exit 0 if the property holds.
export HOME=/root PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin GOPATH=/root/go GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
cp "$here/demo.go.txt" "$tmp/main.go"
printf '{"Replace":{"%s/internal/zzdemo/main.go":"%s/main.go"}}' "$PWD" "$tmp" > "$tmp/o.json"
go build RACE-overlay "$tmp/o.json" -o "$tmp/demo" ./internal/zzdemo || exit 3
timeout 120 "$tmp/demo"
'''
MERGE='''package main

import (
	"fmt"
	"os"
	"strings"

	merge "github.com/tylantz/go-tailwind-merge"
)

func load(css ...string) *merge.Merger {
	m := merge.NewMerger(nil, true)
	for _, s := range css {
		if err := m.AddRules(strings.NewReader(s), false); err != nil {
			fmt.Println("AddRules:", err)
			os.Exit(1)
		}
	}
	return m
}

func expect(m *merge.Merger, in, want string) {
	if got := m.Merge(in); got != want {
		fmt.Printf("Merge(%q) = %q, want %q\\n", in, got, want)
		os.Exit(1)
	}
}

func main() {
@@BODY@@
}
'''
CASC='''package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/tylantz/go-tailwind-merge/internal/cascadia"
	"golang.org/x/net/html"
)

var _ = strings.Join

func doc(s string) *html.Node {
	n, err := html.Parse(strings.NewReader(s))
	if err != nil {
		panic(err)
	}
	return n
}

func fail(args ...any) {
	fmt.Println(args...)
	os.Exit(1)
}

func parse(s string) cascadia.SelectorGroup {
	g, err := cascadia.ParseGroupWithPseudoElements(s)
	if err != nil {
		fail("parse", s, err)
	}
	return g
}

// ids returns the ids of the matching elements.
func ids(d *html.Node, sel string) string {
	var out []string
	for _, n := range cascadia.QueryAll(d, parse(sel)) {
		for _, a := range n.Attr {
			if a.Key == "id" {
				out = append(out, a.Val)
			}
		}
	}
	return strings.Join(out, " ")
}

func expect(what string, got, want any) {
	if got != want {
		fail(what, "got", got, "want", want)
	}
}

var _ = doc
var _ = ids

func main() {
@@BODY@@
}
'''
spec={}
exec(open(sys.argv[1]).read(), spec)
only=sys.argv[2:]
for b in spec['BUGS']:
    if only and b['id'] not in only: continue
    if not os.path.isdir(WT): sh('git -C /repo worktree prune; git clone -q /repo '+WT,'/tmp')
    sh('git checkout -q -- . ; git clean -fdq; git fetch -q origin; git reset -q --hard origin/HEAD','%s'%WT)
    rc,o=sh('git rev-parse HEAD',WT); rc,o2=sh('git rev-parse HEAD','/repo')
    assert o==o2,(o,o2)
    ok=True
    for f,old,new in b['edits']:
        s=open(f'{WT}/{f}').read()
        if s.count(old)!=1: print(b['id'],'EDIT does not apply',s.count(old),repr(old)[:80]); ok=False; break
        open(f'{WT}/{f}','w').write(s.replace(old,new))
    if not ok: continue
    # removed lines must be original
    rc,diff=sh('git diff',WT)
    rc,u0=sh('git diff -U0',WT)
    bad=[]
    cur=None
    import re
    for l in u0.splitlines():
        if l.startswith('--- a/'): cur=l[6:]
        m=re.match(r'@@ -(\d+)(?:,(\d+))?',l)
        if m:
            st,n=int(m[1]),int(m[2] or 1)
            if n:
                _,bl=sh(f'git blame -s -L {st},+{n} HEAD -- {cur}',WT)
                for x in bl.splitlines():
                    bad.append((x[:8].startswith('^f30b24a'),x[:100]))
    noorig=not any(x for x,_ in bad)
    if noorig: print(b['id'],'NO original line changed (tried, not stored)')
    mine=[x for y,x in bad if not y]
    if mine: print(b['id'],'note: touches own lines',mine[:2])
    rc,o=sh('gofmt -l *.go internal; go build ./... && go vet . ./internal/... ',WT)
    if rc or o.strip(): print(b['id'],'build/vet:',o[:600]); 
    if rc: continue
    rc,o=sh("go test -json -vet=off -count=1 ./... > /tmp/t.json; python3 /opt/vp/results.py /tmp/t.out gojson:/tmp/t.json",WT)
    base=json.load(open('/opt/vp/BASELINE.json'))
    t=json.load(open('/tmp/t.out'))
    bl=base.get('stable') or base.get('tests') or []
    missing=[x for x in bl if x not in t['passed']]
    if missing: print(b['id'],'TESTS FAIL:',[m[-80:] for m in missing[:4]]); continue
    D=f"/verif/seeded/{b['id']}"
    os.makedirs(D,exist_ok=True)
    open(D+'/patch.diff','w').write(diff)
    src=b['demo']
    if b.get('kind','merge')=='merge': src=MERGE.replace('@@BODY@@',src).replace('"strings"\n','"strings"\n\t'+b['imports']+'\n' if b.get('imports') else '"strings"\n',1)
    elif b['kind']=='casc': src=CASC.replace('@@BODY@@',src)
    open(D+'/demo.go.txt','w').write(src)
    open(D+'/demo.sh','w').write(DEMO.replace('RACE','-race ' if b.get('race') else ''))
    json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(D+'/meta.json','w'),indent=1)
    r1,o1=sh(f'bash {D}/demo.sh','/repo'); r2,o2=sh(f'bash {D}/demo.sh',WT)
    if r1!=0 or r2==0 or r2==3:
        print(b['id'],'DEMO wrong: clean',r1,o1[-300:],'patched',r2,o2[-300:]); shutil.rmtree(D); continue
    e=dict(os.environ,VERIF_REPO=WT)
    if '-n' in os.environ.get('SEEDOPT',''): print(b['id'],'ok'); continue
    rc,o=sh(f'python3 /verif/check.py {b["prop"]}','/verif',env=e,t=1200)
    v='CAUGHT' if rc==1 and f'VIOLATION property={b["prop"]}' in o else 'MISSED rc=%d'%rc
    first=[l for l in o.splitlines() if l.strip()][:1]
    if noorig: shutil.rmtree(D)
    print(b['id'],b['prop'],v,first[0][:150] if first else '', '|', o2.strip()[:120])
sh('git checkout -q -- .',WT)
