"""Finds every instruction of a library that needs more than baseline x86-64 and writes (address, extensions) pairs.

The CPU simulator replaces the first byte of each such instruction by a trap on machines that lack the extension, so the
code runs at native speed and still meets the invalid-opcode fault it would meet on that machine."""
import re, struct, subprocess
BITS = ['SSE3', 'SSSE3', 'SSE4.1', 'SSE4.2', 'POPCNT', 'LZCNT', 'AES', 'PCLMUL', 'AVX', 'AVX2', 'FMA', 'F16C', 'BMI1', 'BMI2',
        'AVX512F', 'AVX512BW', 'AVX512DQ', 'AVX512VL', 'AVX512CD', 'AVX512-other', 'other']
B = {n: 1 << i for i, n in enumerate(BITS)}
SSE3 = 'addsubps addsubpd haddps haddpd hsubps hsubpd lddqu movddup movshdup movsldup fisttp fisttps fisttpl fisttpll monitor mwait'.split()
SSSE3 = 'pshufb palignr pabsb pabsw pabsd psignb psignw psignd phaddw phaddd phaddsw phsubw phsubd phsubsw pmaddubsw pmulhrsw'.split()
SSE41 = ('pmulld pmuldq dppd dpps movntdqa blendpd blendps blendvps blendvpd pblendvb pblendw pminsb pmaxsb pminuw pmaxuw pminud pmaxud pminsd pmaxsd '
         'roundps roundss roundpd roundsd extractps insertps pinsrb pinsrd pinsrq pextrb pextrd pextrq ptest pcmpeqq packusdw mpsadbw phminposuw').split()
SSE42 = 'pcmpgtq pcmpestri pcmpestrm pcmpistri pcmpistrm'.split()
BMI1 = 'andn bextr blsi blsr blsmsk'.split()
BMI2 = 'bzhi pdep pext rorx sarx shlx shrx mulx'.split()
AVX_ONLY_P = 'vpermilps vpermilpd vperm2f128 vptest'.split()
AVX2_ANY = ('vpbroadcastb vpbroadcastw vpbroadcastd vpbroadcastq vinserti128 vextracti128 vperm2i128 vpermd vpermq vpermps vpermpd vpsllvd vpsllvq vpsrlvd vpsrlvq vpsravd '
            'vpmaskmovd vpmaskmovq vpgatherdd vpgatherdq vpgatherqd vpgatherqq vgatherdps vgatherdpd vgatherqps vgatherqpd vpblendd vbroadcasti128').split()
BW = re.compile(r'^v(pcmp(eq|gt|l[te]|n[el][qt]?|neq|nlt|nle)?u?[bw]|movdqu(8|16)|pbroadcast[bw]|pabs[bw]|p(add|sub)(s|us)?[bw]|p(min|max)[us][bw]|punpck[lh](bw|wd)|pack[us]s(wb|dw)|'
                r'pshuf(b|hw|lw)|palignr|ps(ll|rl|ra)v?w|ps(ll|rl)dq|pmadd(wd|ubsw)|pmul(hw|huw|lw|hrsw)|pavg[bw]|pblendm[bw]|perm([it]2)?w|ptestn?m[bw]|pmov[bw]2m|pmovm2[bw]|pmovu?s?wb|pmov[sz]xbw|'
                r'dbpsadbw|psadbw|pextr[bw]|pinsr[bw])$')
DQ = re.compile(r'^v((insert|extract)[fi](64x2|32x8)|broadcast[fi](32x2|64x2|32x8)|pmullq|cvt\w*qq\w*|range\w+|reduce\w+|fpclass\w+|andn?p[sd]|x?orp[sd]|pmovm2[dq]|pmov[dq]2m|pextr[dq]|pinsr[dq])$')

def need(mn, ops, raw):
    """mask of extensions an instruction needs (0: baseline)"""
    i = 0
    while i < len(raw) and raw[i] in (0x66, 0xF2, 0xF3, 0x2E, 0x36, 0x3E, 0x26, 0x64, 0x65, 0xF0):
        i += 1
    lead = raw[i] if i < len(raw) else 0
    evex = lead == 0x62 and mn.startswith('v')
    vex = lead in (0xC4, 0xC5)
    if evex:
        m = B['AVX512F']
        scalar = re.search(r'(ss|sd|[sp]d2u?si|si2s[sd])$', mn) or mn in ('vmovd', 'vmovq', 'vpextrb', 'vpextrw', 'vpextrd', 'vpextrq', 'vpinsrb', 'vpinsrw', 'vpinsrd', 'vpinsrq')
        if '%zmm' not in ops and not (scalar and '%ymm' not in ops and not mn.startswith('vbroadcasts')):
            m |= B['AVX512VL']
        if BW.match(mn): m |= B['AVX512BW']
        if DQ.match(mn): m |= B['AVX512DQ']
        if mn.startswith(('vpconflict', 'vplzcnt', 'vpbroadcastm')): m |= B['AVX512CD']
        if re.match(r'^v(pmadd52|perm([it]2)?b$|pmultishift|pdp|psh[lr]d|pexpand[bw]|pcompress[bw]|popcnt|pshufbitqmb|4f|p4d)', mn): m |= B['AVX512-other']
        return m
    if vex:
        if mn.startswith('k'):
            return B['AVX512F'] | {'b': B['AVX512DQ'], 'd': B['AVX512BW'], 'q': B['AVX512BW']}.get(mn[-1], 0)
        if mn in BMI1: return B['BMI1']
        if mn in BMI2: return B['BMI2']
        if re.match(r'^vfn?m(add|sub)', mn): return B['AVX'] | B['FMA']
        if mn in ('vcvtph2ps', 'vcvtps2ph'): return B['AVX'] | B['F16C']
        m = B['AVX']
        if mn in AVX2_ANY: m |= B['AVX2']
        elif '%ymm' in ops and (mn.startswith('vp') or mn in ('vmovntdqa', 'vmpsadbw')) and mn not in AVX_ONLY_P: m |= B['AVX2']
        elif mn in ('vbroadcastss', 'vbroadcastsd') and '(' not in ops: m |= B['AVX2']
        if mn.startswith('vaes'): m |= B['AES']
        if mn.startswith('vpclmul'): m |= B['PCLMUL']
        return m
    if mn in SSE3: return B['SSE3']
    if mn in SSSE3 or (mn.startswith('pmov') and False): return B['SSSE3']
    if mn in SSE41 or mn.startswith(('pmovzx', 'pmovsx')): return B['SSE4.1']
    if mn == 'pextrw' and '(' in ops: return B['SSE4.1']
    if mn in SSE42 or mn.startswith('crc32'): return B['SSE4.2']
    if mn.startswith('popcnt'): return B['POPCNT']
    if mn.startswith('lzcnt'): return B['LZCNT']
    if mn.startswith('aes'): return B['AES']
    if mn.startswith('pclmul'): return B['PCLMUL']
    if mn in ('movbe', 'adcx', 'adox', 'rdrand', 'rdseed', 'clflushopt', 'clwb') or mn.startswith('sha1') or mn.startswith('sha256'): return B['other']
    return 0      # tzcnt is tolerated: compilers use its encoding for bsf where both give the same result

def table(so, out):
    p = subprocess.run(['objdump', '-d', '--insn-width=16', '-j', '.text', so], stdout=subprocess.PIPE, text=True, check=True)
    rec = []
    for line in p.stdout.split('\n'):
        f = line.split('\t')
        if len(f) < 3:
            continue
        try:
            addr = int(f[0].strip().rstrip(':'), 16)
        except ValueError:
            continue
        toks = f[2].split('#')[0].split(None)
        while toks and toks[0] in ('rep', 'repz', 'repnz', 'lock', 'data16', 'cs', 'ds', 'es', 'ss', 'notrack', 'bnd', '{vex}', '{evex}', '{vex3}') or (toks and toks[0].startswith('rex')):
            toks = toks[1:]
        if not toks:
            continue
        m = need(toks[0], ' '.join(toks[1:]), bytes.fromhex(f[1]))
        if m:
            rec.append(struct.pack('<II', addr, m))
    open(out, 'wb').write(b''.join(rec))

if __name__ == '__main__':
    import sys, collections
    table(sys.argv[1], '/dev/stdout' if len(sys.argv) < 3 else sys.argv[2])
