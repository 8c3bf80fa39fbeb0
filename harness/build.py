#!/usr/bin/env python3
"""Builds a harness binary from /repo's working tree.  build.py VARIANT -> prints path of binary.
Variants: see VARIANTS.  Objects go to /verif/build/<variant>/ (ignored by git)."""
import os, sys, subprocess, hashlib, glob, concurrent.futures as cf, shutil, re
REPO=os.environ.get('VERIF_REPO','/repo'); HERE=os.path.dirname(os.path.abspath(__file__)); VERIF=os.path.dirname(HERE)
BUILD=os.environ.get('VERIF_BUILD',os.path.join(VERIF,'build'))
SERVER=['memcached.c','thread.c','cache.c','cmdlog.c','lqdetect.c','hash.c','mc_util.c','stats_prefix.c','topkeys.c','daemon.c','sasl_defs.c',
        'config_parser.c','engine_loader.c','extension_loggers.c','genhash.c','util.c']
ENGINE=[ 'engines/default/'+f for f in ['assoc.c','checkpoint.c','chkpt_snapshot.c','cmdlogbuf.c','cmdlogfile.c','cmdlogmgr.c','cmdlogrec.c',
        'coll_btree.c','coll_list.c','coll_map.c','coll_set.c','default_engine.c','item_base.c','item_clog.c','items.c','mem_pool.c','prefix.c','slabs.c']]
HOOK='-DARCUS_MC_HOOKS -DARCUS_MC_BTREE_ITEM_COUNT={b} -DARCUS_MC_HASHCHAIN_SIZE={h} -DARCUS_MC_CMDLOG_BUFFER_SIZE=2048'
LOGB=' -DARCUS_MC_LOG_BUFFER_SIZE={s} -DARCUS_MC_LOG_FLUSH_SIZE={f}'
VARIANTS={
 'std':   dict(cc='', cxx='', asan=False),
 'small': dict(cc=HOOK.format(b=4,h=2), cxx='-DMC_SMALL', asan=False),
 'asan':  dict(cc='-DVALGRIND -fsanitize=address', cxx='-fsanitize=address', asan=True),
 'asasl': dict(cc='-DVALGRIND -fsanitize=address -DASCII_SASL', cxx='-fsanitize=address', asan=True),
 'asmall':dict(cc='-DVALGRIND -fsanitize=address '+HOOK.format(b=4,h=2), cxx='-fsanitize=address -DMC_SMALL', asan=True),
 'persist':dict(cc='-DENABLE_PERSISTENCE=1 '+HOOK.format(b=32,h=64)+LOGB.format(s=4194304,f=32768), cxx='-DMC_PERSIST', asan=False),
 'psmall':dict(cc='-DENABLE_PERSISTENCE=1 '+HOOK.format(b=4,h=2)+LOGB.format(s=4096,f=128), cxx='-DMC_PERSIST', asan=False),
 'apersist':dict(cc='-DENABLE_PERSISTENCE=1 -DVALGRIND -fsanitize=address '+HOOK.format(b=4,h=2)+LOGB.format(s=4194304,f=128), cxx='-DMC_PERSIST -fsanitize=address', asan=True),
 'tsan':  dict(cc='-fsanitize=thread -fno-builtin-memcpy -fno-builtin-memmove -fno-builtin-memset -fno-builtin-memcmp '+HOOK.format(b=4,h=2), cxx='-DMC_TSANRT', asan=False),
}
BASE='-std=gnu11 -O1 -g -w -fno-stack-protector -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -fno-omit-frame-pointer -pthread -DHAVE_CONFIG_H'
RUNTIME=('sim.cc','vfs.cc','tsanrt.cc')
TS=' '.join('--redefine-sym %s=mct_%s'%(x,x) for x in ('memcpy','memmove','memset','memcmp'))
KEEP_S='mc_hash genhash_init genhash_free genhash_store genhash_find genhash_delete genhash_delete_all genhash_update genhash_fun_update genhash_iter genhash_iter_key genhash_size genhash_clear genhash_size_for_key genhash_string_hash cache_create cache_destroy cache_alloc cache_free cache_error topkeys_init topkeys_free topkeys_item_get_or_create topkeys_stats parse_config safe_strtoull safe_strtoll safe_strtoul safe_strtol safe_strtof safe_strtohexa safe_hexatostr mc_isvalidname mblck_pool_create mblck_pool_destroy mblck_list_alloc mblck_list_merge mblck_list_free token_buff_create token_buff_destroy token_buff_get token_buff_release tokenize_command detokenize tokenize_keys tokenize_mblocks tokenize_sblocks'; KEEP_E='slabs_clsid slabs_space_size slabs_stats MAX_SM_VALUE_LEN'; KEEP=KEEP_S+'|'+KEEP_E
def sh(cmd):
    r=subprocess.run(cmd,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    if r.returncode: raise RuntimeError(cmd+"\n"+r.stdout[:2500])
    return r.stdout
def h(*parts):
    m=hashlib.sha256()
    for p in parts: m.update(p.encode() if isinstance(p,str) else p); m.update(b'\0')
    return m.hexdigest()[:20]
def tree_hash(files):
    m=hashlib.sha256()
    for f in sorted(files):
        m.update(f.encode()); m.update(open(f,'rb').read())
    return m.hexdigest()[:20]
def ensure_config(out):
    """config.h and friends: taken from /repo when built there, else from the copy in harness/config"""
    inc=os.path.join(out,'cfg'); os.makedirs(inc,exist_ok=True)
    c=os.path.join(HERE,'config','config.h')
    shutil.copy(c,os.path.join(inc,'config.h'))
    return inc
def build(variant, prop=None):
    """prop: link only the suites of that property (None: all)"""
    v=VARIANTS[variant]
    out=os.path.join(BUILD,variant); os.makedirs(out,exist_ok=True)
    hout=os.path.join(BUILD,'h'); os.makedirs(hout,exist_ok=True)
    inc=ensure_config(out)
    hdrs=glob.glob(REPO+'/*.h')+glob.glob(REPO+'/include/**/*.h',recursive=True)+glob.glob(REPO+'/engines/default/*.h')
    hdrs=[x for x in hdrs if not x.endswith('/config.h')]+[os.path.join(inc,'config.h')]
    hh=tree_hash(hdrs+[HERE+'/fibertls.h'])
    I=f'-include {HERE}/fibertls.h -I{inc} -I{REPO} -I{REPO}/include -I{REPO}/engines/default'
    jobs=[]; objs_s=[]; objs_e=[]; objs_h=[]; objs_x=[]
    def add(src,kind,flags,dst,hd):
        o=os.path.join(dst,kind+'_'+os.path.basename(src).replace('.','_')+'_'+h(open(src,'rb').read(),hd,flags)+'.o')
        comp='g++' if src.endswith('.cc') else 'gcc'
        if not os.path.exists(o): jobs.append((src,o,f'{comp} {flags} -c {src} -o {o}.{os.getpid()} && mv {o}.{os.getpid()} {o}'))
        return o
    for s in SERVER: objs_s.append(add(f'{REPO}/{s}','s',f'{BASE} {v["cc"]} {I}'+(' -DENABLE_ZK_INTEGRATION' if s=='sasl_defs.c' and prop=='C32' else ''),out,hh))
    eng=sorted(set(ENGINE)|set('engines/default/'+os.path.basename(x) for x in glob.glob(REPO+'/engines/default/*.c')))
    for s in eng:
        cc=v['cc']
        if s.endswith('/slabs.c'): cc=cc.replace('-fsanitize=address','')
        objs_e.append(add(f'{REPO}/{s}','e',f'{BASE} {cc} {I}',out,hh))
    # libmcd_util pieces the engine links itself
    for s in ['config_parser.c','genhash.c','util.c','extension_loggers.c']: objs_e.append(add(f'{REPO}/{s}','e',f'{BASE} {v["cc"]} {I}',out,hh))
    objs_x.append(add(f'{REPO}/ascii_scrub.c','x',f'{BASE} {v["cc"]} {I}',out,hh))
    # harness: only the runtime is built per variant, everything else is shared and never instrumented
    hhd=tree_hash(glob.glob(HERE+'/*.h'))
    hflags=f'-std=gnu++17 -O1 -D_GLIBCXX_ASSERTIONS -g1 -w -fno-omit-frame-pointer -pthread -I{HERE}'
    for s in sorted(glob.glob(HERE+'/*.cc')):
        base=os.path.basename(s)
        if base.startswith('s_') and prop:
            if not re.search(r'^SUITE(_B)?\(\s*"'+prop+'"',open(s).read(),re.M): continue
        fl=hflags+(' -I'+REPO+' -I'+REPO+'/include' if open(s).readline().startswith('// repo headers') else '')
        if base in RUNTIME: fl+=' '+v['cxx']
        objs_h.append(add(s,'h',fl,hout,hhd))
    # C parts of suites: compiled like the server, linked with the harness only where a suite asks for them
    shims=[]
    for s in sorted(glob.glob(HERE+'/s_*.cc')):
        t=open(s).read()
        if prop and not re.search(r'^SUITE(_B)?\(\s*"'+prop+'"',t,re.M): continue
        for n in re.findall(r'^// shim: (\S+)',t,re.M): shims.append(add(f'{HERE}/{n}','c',f'{BASE} {v["cc"]} {I}',out,hh))
    with cf.ThreadPoolExecutor(8) as ex:
        jobs.sort(key=lambda j:-os.path.getsize(j[0]))
        for f in [ex.submit(sh,j[2]) for j in jobs]: f.result()
    R=HERE+'/redefs.txt'
    key=h(*sorted(objs_s+objs_e+objs_x), open(R).read(), KEEP)
    parts=f'{out}/parts_{key}.o'
    if not os.path.exists(parts):
        sh(f'rm -f {out}/parts_*')
        # engine: route item memory through the wrapper everywhere except in slabs.c itself
        eo=[]
        for o in objs_e:
            if 'e_slabs_c' in o: eo.append(o); continue
            o2=o[:-2]+'.w.o'
            sh(f'objcopy --redefine-sym slabs_alloc=mcw_slabs_alloc --redefine-sym slabs_free=mcw_slabs_free {o} {o2}'); eo.append(o2)
        def part(name,objs,keep,ren=''):
            o1=f'{out}/{name}.r.o'; o2=f'{out}/{name}.l.o'
            sh(f'ld -r {" ".join(objs)} -o {o1}')
            ks=' '.join(f'-G {k}' for k in keep.split())
            sh(f'objcopy --redefine-syms={R} {ren} {TS if variant=='tsan' else ''} {o1} {o1}.2 && objcopy {ks} {o1}.2 {o2} && rm -f {o1} {o1}.2')
            return o2
        s=part('server',objs_s,'mc_server_main '+KEEP_S)
        e=part('engine',eo,'mc_engine_create_instance slabs_alloc slabs_free '+KEEP_E,'--redefine-sym create_instance=mc_engine_create_instance')
        x=part('scrubx',objs_x,'mc_scrub_ext_init','--redefine-sym memcached_extensions_initialize=mc_scrub_ext_init')
        sh(f'ld -r {s} {e} {x} -o {parts}.tmp && mv {parts}.tmp {parts} && rm -f {s} {e} {x}')
    for o in sorted(set(shims)):
        o2=o[:-2]+'.q.o'
        if not os.path.exists(o2): sh(f'objcopy --redefine-syms={R} {o} {o2}.{os.getpid()} && mv {o2}.{os.getpid()} {o2}')
        objs_h.append(o2)
    name='mc_'+(prop or 'all')
    binp=os.path.join(out,name+'_'+h(parts,*sorted(objs_h)))
    if not os.path.exists(binp):
        sh(f'rm -f {out}/{name}_*')
        san='-fsanitize=address' if v['asan'] else ''
        sh(f'g++ {san} -no-pie -pthread {" ".join(objs_h)} {parts} -lsasl2 -lm -ldl -o {binp}.tmp && mv {binp}.tmp {binp}')
    return binp
if __name__=='__main__':
    print(build(sys.argv[1], sys.argv[2] if len(sys.argv)>2 else None))
