#!/usr/bin/env python3
"""Generate alias files for the shim packages: every exported identifier of the standard package
that the shim does not define itself. Run with the sandbox's Go; output is committed."""
import subprocess,re,os,sys
rt=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','sim','rt')
prog=r'''
package main
import ("fmt";"go/importer";"go/types";"os";"go/token";"sort")
func main(){
 imp:=importer.ForCompiler(token.NewFileSet(),"source",nil)
 for _,p:=range os.Args[1:]{
  pk,err:=imp.Import(p); if err!=nil{panic(err)}
  sc:=pk.Scope(); n:=sc.Names(); sort.Strings(n)
  for _,x:=range n{ o:=sc.Lookup(x); if !o.Exported(){continue}
   k:=""
   switch t:=o.(type){case *types.Const:k="const";case *types.TypeName:k="type"
     if nt,ok:=t.Type().(*types.Named);ok&&nt.TypeParams().Len()>0{k="gtype"}
   case *types.Var:k="var";case *types.Func:k="func"; if t.Type().(*types.Signature).TypeParams().Len()>0{k="gfunc"}}
   fmt.Println(p,k,x)}
 }
}
'''
import tempfile
d=tempfile.mkdtemp()
open(d+'/m.go','w').write(prog)
pk={'time':'time','net':'net','rand':'math/rand','runtime':'runtime','atomic':'sync/atomic','sync':'sync','context':'context'}
out=subprocess.run(['go','run',d+'/m.go']+list(pk.values()),capture_output=True,text=True,env=dict(os.environ,CGO_ENABLED='0'))
if out.returncode: print(out.stderr); sys.exit(1)
idents={}
for l in out.stdout.split('\n'):
    if l: p,k,x=l.split(); idents.setdefault(p,[]).append((k,x))
# functions that block or touch the real world must not be silently aliased
deny={'net':{'Listen','ListenTCP','ListenUDP','ListenUnix','ListenPacket','ListenIP','ListenMulticastUDP','ListenUnixgram','FileConn','FileListener','FilePacketConn','DialIP','DialUDP','DialUnix','Pipe','ListenConfig','Resolver','DefaultResolver','LookupHost','LookupAddr','LookupCNAME','LookupIP','LookupMX','LookupNS','LookupPort','LookupSRV','LookupTXT','TCPListener','UDPConn','UnixConn','UnixListener','IPConn'},
 'runtime':{'Goexit','LockOSThread','UnlockOSThread','SetFinalizer','AddCleanup','Stack','GoroutineProfile'},
 'math/rand':set(),'time':set(),'sync':set(),'sync/atomic':set(),'context':set()}
for short,p in pk.items():
    own=set()
    dd=os.path.join(rt,short)
    for f in os.listdir(dd):
        if f=='alias_gen.go' or not f.endswith('.go'): continue
        src=open(os.path.join(dd,f)).read()
        own|=set(re.findall(r'^func ([A-Z]\w*)',src,re.M))|set(re.findall(r'^(?:type|var|const) ([A-Z]\w*)',src,re.M))
    lines=['// Code generated by tools/genshim.py. DO NOT EDIT.','package '+short,'','import std "%s"'%p,'']
    n=0
    for k,x in idents.get(p,[]):
        if x in own or x in deny[p]: continue
        if k=='const': lines.append('const %s = std.%s'%(x,x))
        elif k=='type': lines.append('type %s = std.%s'%(x,x))
        elif k in('var','func'): lines.append('var %s = std.%s'%(x,x))
        else: continue
        n+=1
    fn=os.path.join(dd,'alias_gen.go')
    if n: open(fn,'w').write('\n'.join(lines)+'\n')
    elif os.path.exists(fn): os.remove(fn)
    print(short,n)
