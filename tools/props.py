"""which suites decide which property"""
import random
from mliconf import *
import gen_elt, gen_act, gen_conv, gen_pool, gen_data, gen_mov, gen_rnn, gen_k30, gen_iter, gen_pair, gen_req
from genlib import mode
NOTES = {}
STD = ['up', 'convergent', 'up_fullaccu_dbg']

def suite(ctx, name, gen, n, configs=STD, **kw):
    # every build configuration gets sessions of its own
    cs = {cf: gen(ctx.rng(name + ('' if cf == configs[0] else ':' + cf)), ctx.scale(n), ctx.tier) for cf in configs}
    ctx.sessions(name, lambda cf: cs[cf], configs, **kw)

def k30(ctx, kinds, n, configs=STD, name='k30'):
    suite(ctx, name, gen_k30.gen(kinds), n, configs, src='drv30.cc', module='Conf30')

TILE_INV = 'Inside Exactly Closed Done Together Field NoOvPartition UpdLayout'
def tile_model(ctx):
    big = ctx.tier == 'thorough'
    b = dict(MaxN=7, MaxK=5, MaxS=3, MaxIn=20, N2=3) if big else dict(MaxN=5, MaxK=4, MaxS=3, MaxIn=14, N2=2)
    ctx.model('MC_Tile', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS %s\nCONSTANTS\n RoundUp = TRUE\n Ave16 = FALSE\n FullAccu = FALSE\n RetCodes = FALSE\n' % TILE_INV +
              ''.join(' %s = %d\n' % x for x in b.items()))

def iters(ctx, name, kinds, n):
    suite(ctx, name, gen_iter.gen(kinds), n, src='drv30.cc', module='Conf30I')

def C01(ctx):
    tile_model(ctx)
    iters(ctx, 'iter_out', ['out', 'out', 'out', 'plain', 'whole', 'drop'], 2000)
    k30(ctx, ['add', 'max', 'clip', 'permute', 'mbcast', 'move', 'move', 'rmax'], 400)
def C02(ctx):
    tile_model(ctx)
    iters(ctx, 'iter_in', ['in', 'in', 'noov', 'w'], 2000)
    k30(ctx, ['conv', 'dw', 'maxpool', 'sumpool', 'tconv', 'move'], 900)
def C31(ctx):
    big = ctx.tier == 'thorough'
    ctx.model('MC_Cfg', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Closes Layout Sound Kept Fits\nCONSTANTS\n RoundUp = TRUE\n Ave16 = FALSE\n FullAccu = FALSE\n RetCodes = FALSE\n MaxN = %d\n MaxOps = %d\n' % ((6, 3) if big else (5, 2)))
    iters(ctx, 'reshape', ['tr', 'sub', 'subin', 'setcfg', 'shrink', 'gran', 'cyc', 'buf'], 2400)
    iters(ctx, 'cfg', ['cfg'], 2000)
def C30(ctx): iters(ctx, 'view', ['view'], 6000)

def C03(ctx):
    k30(ctx, ['conv', 'conv', 'dw', 'tconv', 'fc', 'fc_old', 'matmul'], 3000)
    ctx.sessions('k30_over8', gen_k30.over8('conv'), ['up'], src='drv30.cc', module='Conf30')
    k30(ctx, ['convb', 'tconvb'], 300, ['up', 'convergent'], 'k30_batches')
def C04(ctx):
    k30(ctx, ['maxpool', 'sumpool', 'rmax', 'rsum', 'resize'], 5500)
    ctx.sessions('k30_over8', gen_k30.over8('pool'), ['up'], src='drv30.cc', module='Conf30')
def C05(ctx): k30(ctx, ['add', 'sub', 'mul', 'max', 'min', 'rescale', 'rescale', 'clip', 'prelu', 'permute', 'mbcast', 'move'], 9000)
def C06(ctx): k30(ctx, [k for k in gen_k30.MAKE if not k.endswith('convb')], 3600)

def C15(ctx): suite(ctx, 'eltwise', gen_elt.gen, 8500)
def C16(ctx):
    suite(ctx, 'relu', gen_act.gen_relu, 2400)
    suite(ctx, 'prelu', gen_act.gen_prelu, 4000)
def C17(ctx): suite(ctx, 'sigm_tanh', gen_act.gen_sigm, 1500)
def C18(ctx):
    suite(ctx, 'softmax', gen_act.gen_softmax, 1000)
    suite(ctx, 'l2', gen_act.gen_l2, 1000)

def C07(ctx): suite(ctx, 'conv2d', gen_conv.gen(['conv']), 2000)
def C08(ctx): suite(ctx, 'dw_group', gen_conv.gen(['depthwise', 'group']), 2200)
def C09(ctx): suite(ctx, 'transpose', gen_conv.gen(['transpose']), 1200)
def C10(ctx): suite(ctx, 'fc', gen_conv.gen_fc, 5000)
def C11(ctx):
    suite(ctx, 'lstm', gen_rnn.gen_cell('lstm'), 1000)
    suite(ctx, 'rnn_dense', gen_rnn.gen_dense, 2400)
def C12(ctx): suite(ctx, 'gru', gen_rnn.gen_cell('gru'), 1100)
def C13(ctx): suite(ctx, 'maxpool', gen_pool.gen('max'), 3500)
def C14(ctx): suite(ctx, 'avepool', gen_pool.gen('ave'), 3500)
def C19(ctx): suite(ctx, 'argmax', gen_data.gen_argmax, 4500)
def C20(ctx): suite(ctx, 'permute', gen_data.gen_permute, 3500)
def C21(ctx): suite(ctx, 'convert', gen_data.gen_convert, 6500)
def C22(ctx):
    suite(ctx, 'sub', gen_data.gen_sub(False), 5500, ['up', 'convergent'])
    suite(ctx, 'sub_dbg', gen_data.gen_sub(True), 5500, ['up_fullaccu_dbg'])
def C23(ctx):
    suite(ctx, 'mov', gen_mov.gen_sync(False), 3500, ['up', 'convergent'])
    suite(ctx, 'mov_dbg', gen_mov.gen_sync(True), 2500, ['up_fullaccu_dbg'])
    suite(ctx, 'mov_chain', gen_mov.gen_chain(False), 200)
    suite(ctx, 'mov_cfg', gen_mov.gen_cfg, 60)
def C24(ctx):
    big = ctx.tier == 'thorough'
    e = ctx.edges('MC_Mov', ['TypeOk', 'Disjoint', 'InPool', 'NoLeak', 'OncePerStart'],
                  dict(NH=2, Nums='{0, 1, 2}', MaxLen=30, Pools='<- PoolsDef'))
    rng = ctx.rng('hist')
    hs = rng.sample(e, min(len(e), 20000 if big else 2500))
    ctx.sessions('mov_history', [gen_mov.from_history(rng, h) for h in hs], ['up', 'up_fullaccu_dbg'])
    ctx.notes['histories'] = dict(edges=len(e), replayed=len(hs))
def C29(ctx): suite(ctx, 'special', gen_conv.gen_special, 2500)

# two-run properties: what a call may change, what it may depend on
NOCONVB = [k for k in gen_k30.MAKE if not k.endswith('convb') and k != 'nop']
def C26(ctx):
    suite(ctx, 'frame', gen_pair.gen(False), 1500, ['up', 'convergent'], module='Pair')
    suite(ctx, 'frame_dbg', gen_pair.gen(True), 1500, ['up_fullaccu_dbg'], module='Pair')
    suite(ctx, 'frame30', gen_pair.gen30(NOCONVB), 600, src='drv30.cc', module='Pair')
def C27(ctx): suite(ctx, 'inplace', gen_pair.gen_inplace, 6000, module='Pair')

def C25(ctx): suite(ctx, 'requirements', gen_req.gen(), 12000, ['up_retcodes', 'conv_retcodes_full'], module='Req')

FX_INV = 'Rounding Monotone LeftSat Narrow Norm Wide1 Sat Prod WideRing WideShift'
def fx_model(ctx):
    big = ctx.tier == 'thorough'
    for up in ('TRUE', 'FALSE'):
        ctx.model('MC_Fx', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS %s\nCONSTANTS\n RoundUp = %s\n B = %d\n C = %d\n Grid = {%s}\n' %
                  (FX_INV, up, *((13, 8, ', '.join(map(str, range(1, 31)))) if big else (10, 6, '1, 3, 7, 10, 11, 15, 16, 21, 22, 23, 30'))),
                  name='MC_Fx_' + up)
KERN = dict(elt=gen_elt.gen, relu=gen_act.gen_relu, prelu=gen_act.gen_prelu, sigm=gen_act.gen_sigm, softmax=gen_act.gen_softmax,
            l2=gen_act.gen_l2, conv=gen_conv.gen(['conv', 'depthwise', 'group', 'transpose']), fc=gen_conv.gen_fc, rnnd=gen_rnn.gen_dense,
            lstm=gen_rnn.gen_cell('lstm'), gru=gen_rnn.gen_cell('gru'), ave=gen_pool.gen('ave'), convert=gen_data.gen_convert)
def C28(ctx):
    fx_model(ctx)
    def both(m):
        def f(rng, n, tier):
            return [c for k in KERN for c in mode(m, KERN[k])(rng, n // 3 if k in ('sigm', 'softmax', 'l2', 'lstm', 'gru') else n, tier)]
        return f
    for m, n in (('ties', 300), ('ext', 120)): suite(ctx, m, both(m), n)
    ks = ['rescale', 'rescale', 'prelu', 'sumpool', 'add', 'mul', 'clip']
    for m, n in (('ties', 600), ('ext', 300)): suite(ctx, m + '30', mode(m, gen_k30.gen(ks)), n, src='drv30.cc', module='Conf30')

PROPS = {k: v for k, v in globals().items() if k[0] == 'C' and k[1:].isdigit()}
