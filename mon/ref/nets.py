'''Golden network table (the published chain parameters), independent of the
code under test.
name|symbol|p2pkh|p2sh|segwit|bech32 hrp|segwit text format|fork id|cashaddr
'''
_T = '''
bitcoin_main|BTC|00|05|1|bc|bech32||
bitcoin_test|tBTC|6f|c4|1|tb|bech32||
bitcoin_reg|rBTC|6f|c4|1|bcrt|bech32||
litecoin_main|LTC|30|32|1|ltc|bech32||
litecoin_test|tLTC|6f|3a|1|tltc|bech32||
litecoin_reg|rLTC|6f|3a|1|tltc|bech32||
bitcoin_cash_main|BCH|00|05|0||bech32|0|bitcoincash
bitcoin_cash_test|tBCH|6f|c4|0||bech32|0|bchtest
bitcoin_cash_reg|rBCH|6f|c4|0||bech32|0|bchreg
bitcoin_gold_main|BTG|26|17|1|btg|bech32|79|
bitcoin_gold_test|tBTG|6f|c4|1|tbtg|bech32|79|
bitcoin_gold_reg|rBTG|6f|c4|1|tbtg|bech32|79|
dogecoin_main|DOGE|1e|16|0||bech32||
dogecoin_test|tDOGE|71|c4|0||bech32||
dogecoin_reg|rDOGE|71|c4|0||bech32||
dash_main|DASH|4c|10|0||bech32||
dash_test|tDASH|8c|13|0||bech32||
dash_reg|rDASH|8c|13|0||bech32||
zcash_sprout_main|ZEC|1cb8|1cbd|0||bech32||
zcash_sprout_test|tZEC|1d25|1cba|0||bech32||
zcash_sprout_reg|rZEC|1d25|1cba|0||bech32||
zcash_overwinter_main|ZEC|1cb8|1cbd|0||bech32||
zcash_overwinter_test|tZEC|1d25|1cba|0||bech32||
zcash_overwinter_reg|rZEC|1d25|1cba|0||bech32||
zcash_sapling_main|ZEC|1cb8|1cbd|0||bech32||
zcash_sapling_test|tZEC|1d25|1cba|0||bech32||
zcash_sapling_reg|rZEC|1d25|1cba|0||bech32||
decred_main|DCR|073f|071a|0||bech32||
decred_test|DCRT|0f21|0efc|0||bech32||
decred_simnet|DCRS|0e91|0e6c|0||bech32||
pivx_main|PIVX|1e|0d|0||bech32||
pivx_test|tPIVX|8b|13|0||bech32||
pivx_reg|rPIVX|8b|13|0||bech32||
viacoin_main|VIA|47|21|1|via|bech32||
viacoin_test|tVIA|7f|c4|1|tvia|bech32||
viacoin_simnet|sVIA|6f|c4|1|svia|bech32||
feathercoin_main|FTC|0e|60|1|fc|bech32||
feathercoin_test|tFTC|6f|c4|1|tf|bech32||
feathercoin_reg|rFTC|6f|c4|1|fcrt|bech32||
bitcoin_dark_main|BTCD|3c|55|0||bech32||
bitcoin_dark_test|tBTCD|6f|c4|0||bech32||
bitcoin_dark_reg|rBTCD|6f|c4|0||bech32||
axe_main|AXE|37|10|0||bech32||
axe_test|tAXE|8c|13|0||bech32||
axe_reg|rAXE|8c|13|0||bech32||
bitcore_main|BTX|00|32|1||base58||
bitcore_test|tBTX|6f|3a|1||base58||
bitcore_reg|rBTX|6f|3a|1||base58||
digibyte_main|DGB|1e|3f|1|dgb|bech32||
digibyte_test|tDGB|7e|8c|1|dgbt|bech32||
digibyte_reg|rDGB|7e|8c|1|dgbrt|bech32||
groestlcoin_main|GRS|24|05|1|grs|base58||
groestlcoin_test|tGRS|6f|c4|1|tgrs|base58||
groestlcoin_reg|rGRS|6f|c4|1|grsrt|base58||
monacoin_main|MONA|32|37|1||base58||
monacoin_test|tMONA|6f|c4|1||base58||
monacoin_reg|rMONA|6f|c4|1||base58||
navcoin_main|NAV|35|55|1||base58||
navcoin_test|tNAV|36|56|1||base58||
navcoin_reg|rNAV|14|60|1||base58||
syscoin_main|SYS|3f|05|1||base58||
syscoin_test|tSYS|41|c4|1||base58||
syscoin_reg|rSYS|41|c4|1||base58||
vertcoin_main|VTC|47|05|1|vtc|bech32||
vertcoin_test|tVTC|4a|c4|1|tvtc|bech32||
vertcoin_reg|rVTC|6f|c4|1|bcrt|bech32||
bitcoin_private_main|BTCP|1325|13af|0||bech32|42|
bitcoin_private_test|tBTCP|1957|19e0|0||bech32|42|
bitcoin_private_reg|rBTCP|1957|19e0|0||bech32|42|
verge_main|XVG|1e|21|0||bech32||
verge_test|tXVG|73|c6|0||bech32||
verge_reg|rXVG|73|c6|0||bech32||
'''


class Net:
    def __init__(self, line):
        f = line.split('|')
        self.name, self.symbol = f[0], f[1]
        self.p2pkh, self.p2sh = bytes.fromhex(f[2]), bytes.fromhex(f[3])
        self.segwit = f[4] == '1'
        self.hrp = f[5] or None
        self.segfmt = f[6]
        self.forkid = int(f[7]) if f[7] else None
        self.cashaddr = f[8] or None
        self.chain, self.subnet = self.name.rsplit('_', 1)
        self.decred = self.chain == 'decred'
        self.family = (
            'decred' if self.decred else
            self.chain[6:] if self.chain.startswith('zcash_') else 'bitcoin')

    def __repr__(self):
        return 'Net(%s)' % self.name


NETS = [Net(x) for x in _T.strip().splitlines()]
BY = {n.name: n for n in NETS}
NAMES = [n.name for n in NETS]
assert len(NETS) == 72
BITCOIN_LIKE = [n for n in NETS if n.family == 'bitcoin']
DECRED = [n for n in NETS if n.decred]
SPROUT = [n for n in NETS if n.family == 'sprout']
OVERWINTER = [n for n in NETS if n.family == 'overwinter']
SAPLING = [n for n in NETS if n.family == 'sapling']
SEGWIT = [n for n in NETS if n.segwit]
FORKID = [n for n in NETS if n.forkid is not None]
PLAIN = [n for n in BITCOIN_LIKE if n.forkid is None]
