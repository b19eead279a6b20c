//go:build go1.21

package main

import (
	"github.com/blocktree/go-owcdrivers/addressEncoder"
	"github.com/blocktree/go-owcdrivers/zzverif/ref"
)

// The reference table: what each network's format is (reviewed by hand; constants are spelled out on purpose).

var profiles = []struct {
	Ref  ref.Profile
	Impl addressEncoder.AddressType
}{
	{ref.Profile{"BTC_mainnetAddressP2PKH", "base58", ref.B58, "doubleSHA256", "h160", 20, []byte{0x00}, nil}, addressEncoder.BTC_mainnetAddressP2PKH},
	{ref.Profile{"BTC_mainnetAddressP2SH", "base58", ref.B58, "doubleSHA256", "h160", 20, []byte{0x05}, nil}, addressEncoder.BTC_mainnetAddressP2SH},
	{ref.Profile{"BTC_mainnetAddressBech32V0", "bech32", ref.B32, "bc", "h160", 20, []byte{0}, nil}, addressEncoder.BTC_mainnetAddressBech32V0},
	{ref.Profile{"BTC_mainnetPrivateWIF", "base58", ref.B58, "doubleSHA256", "", 32, []byte{0x80}, nil}, addressEncoder.BTC_mainnetPrivateWIF},
	{ref.Profile{"BTC_mainnetPrivateWIFCompressed", "base58", ref.B58, "doubleSHA256", "", 32, []byte{0x80}, []byte{0x01}}, addressEncoder.BTC_mainnetPrivateWIFCompressed},
	{ref.Profile{"BTC_mainnetPublicBIP32", "base58", ref.B58, "doubleSHA256", "", 74, []byte{0x04, 0x88, 0xB2, 0x1E}, nil}, addressEncoder.BTC_mainnetPublicBIP32},
	{ref.Profile{"BTC_mainnetPrivateBIP32", "base58", ref.B58, "doubleSHA256", "", 74, []byte{0x04, 0x88, 0xAD, 0xE4}, nil}, addressEncoder.BTC_mainnetPrivateBIP32},
	{ref.Profile{"BTC_testnetAddressP2PKH", "base58", ref.B58, "doubleSHA256", "h160", 20, []byte{0x6F}, nil}, addressEncoder.BTC_testnetAddressP2PKH},
	{ref.Profile{"BTC_testnetAddressP2SH", "base58", ref.B58, "doubleSHA256", "h160", 20, []byte{0xC4}, nil}, addressEncoder.BTC_testnetAddressP2SH},
	{ref.Profile{"BTC_testnetAddressBech32V0", "bech32", ref.B32, "tb", "h160", 20, []byte{0}, nil}, addressEncoder.BTC_testnetAddressBech32V0},
	{ref.Profile{"BTC_testnetPrivateWIF", "base58", ref.B58, "doubleSHA256", "", 32, []byte{0xEF}, nil}, addressEncoder.BTC_testnetPrivateWIF},
	{ref.Profile{"BTC_testnetPrivateWIFCompressed", "base58", ref.B58, "doubleSHA256", "", 32, []byte{0xEF}, []byte{0x01}}, addressEncoder.BTC_testnetPrivateWIFCompressed},
	{ref.Profile{"BTC_testnetPublicBIP32", "base58", ref.B58, "doubleSHA256", "", 74, []byte{0x04, 0x35, 0x87, 0xCF}, nil}, addressEncoder.BTC_testnetPublicBIP32},
	{ref.Profile{"BTC_testnetPrivateBIP32", "base58", ref.B58, "doubleSHA256", "", 74, []byte{0x04, 0x35, 0x83, 0x94}, nil}, addressEncoder.BTC_testnetPrivateBIP32},
	{ref.Profile{"XMR_mainnetPublicAddress", "xmr", ref.B58, "keccak256", "", 64, []byte{0x12}, nil}, addressEncoder.XMR_mainnetPublicAddress},
	{ref.Profile{"XMR_mainnetPublicSubAddress", "xmr", ref.B58, "keccak256", "", 64, []byte{0x2A}, nil}, addressEncoder.XMR_mainnetPublicSubAddress},
	{ref.Profile{"XMR_mainnetPublicIntegratedAddress", "xmr", ref.B58, "keccak256", "payID", 72, []byte{0x13}, nil}, addressEncoder.XMR_mainnetPublicIntegratedAddress},
	{ref.Profile{"XMR_testnetPublicAddress", "xmr", ref.B58, "keccak256", "", 64, []byte{0x35}, nil}, addressEncoder.XMR_testnetPublicAddress},
	{ref.Profile{"XMR_testnetPublicSubAddress", "xmr", ref.B58, "keccak256", "", 64, []byte{0x3f}, nil}, addressEncoder.XMR_testnetPublicSubAddress},
	{ref.Profile{"XMR_testnetPublicIntegratedAddress", "xmr", ref.B58, "keccak256", "payID", 72, []byte{0x36}, nil}, addressEncoder.XMR_testnetPublicIntegratedAddress},
	{ref.Profile{"DOGE_multiSignAddressP2PKH", "base58", ref.B58, "doubleSHA256", "h160", 20, []byte{0x16}, nil}, addressEncoder.DOGE_multiSignAddressP2PKH},
	{ref.Profile{"ONT_Address", "base58", ref.B58, "doubleSHA256", "h160", 20, []byte{0x17}, nil}, addressEncoder.ONT_Address},
	{ref.Profile{"XRP_Address", "base58", ref.B58XRP, "doubleSHA256", "h160", 20, []byte{0x00}, nil}, addressEncoder.XRP_Address},
	{ref.Profile{"BTM_mainnetAddressBech32V0", "bech32", ref.B32, "bm", "h160", 20, []byte{0}, nil}, addressEncoder.BTM_mainnetAddressBech32V0},
	{ref.Profile{"BTM_testnetAddressBech32V0", "bech32", ref.B32, "tm", "h160", 20, []byte{0}, nil}, addressEncoder.BTM_testnetAddressBech32V0},
	{ref.Profile{"ZEC_mainnet_t_AddressP2PKH", "base58", ref.B58, "doubleSHA256", "h160", 20, []byte{0x1C, 0xB8}, nil}, addressEncoder.ZEC_mainnet_t_AddressP2PKH},
	{ref.Profile{"ZEC_mainnet_t_AddressP2SH", "base58", ref.B58, "doubleSHA256", "h160", 20, []byte{0x1C, 0xBD}, nil}, addressEncoder.ZEC_mainnet_t_AddressP2SH},
	{ref.Profile{"ZEC_testnet_t_AddressP2PKH", "base58", ref.B58, "doubleSHA256", "h160", 20, []byte{0x1D, 0x25}, nil}, addressEncoder.ZEC_testnet_t_AddressP2PKH},
	{ref.Profile{"ZEC_testnet_t_AddressP2SH", "base58", ref.B58, "doubleSHA256", "h160", 20, []byte{0x1C, 0xBA}, nil}, addressEncoder.ZEC_testnet_t_AddressP2SH},
	{ref.Profile{"LTC_mainnetAddressP2PKH", "base58", ref.B58, "doubleSHA256", "h160", 20, []byte{0x30}, nil}, addressEncoder.LTC_mainnetAddressP2PKH},
	{ref.Profile{"LTC_mainnetAddressP2SH", "base58", ref.B58, "doubleSHA256", "h160", 20, []byte{0x05}, nil}, addressEncoder.LTC_mainnetAddressP2SH},
	{ref.Profile{"LTC_mainnetAddressP2SH2", "base58", ref.B58, "doubleSHA256", "h160", 20, []byte{0x32}, nil}, addressEncoder.LTC_mainnetAddressP2SH2},
	{ref.Profile{"LTC_mainnetAddressBech32V0", "bech32", ref.B32, "ltc", "h160", 20, []byte{0}, nil}, addressEncoder.LTC_mainnetAddressBech32V0},
	{ref.Profile{"LTC_mainnetPrivateWIF", "base58", ref.B58, "doubleSHA256", "", 32, []byte{0xB0}, nil}, addressEncoder.LTC_mainnetPrivateWIF},
	{ref.Profile{"LTC_mainnetPrivateWIFCompressed", "base58", ref.B58, "doubleSHA256", "", 32, []byte{0xB0}, []byte{0x01}}, addressEncoder.LTC_mainnetPrivateWIFCompressed},
	{ref.Profile{"LTC_mainnetPublicBIP32", "base58", ref.B58, "doubleSHA256", "", 74, []byte{0x04, 0x88, 0xB2, 0x1E}, nil}, addressEncoder.LTC_mainnetPublicBIP32},
	{ref.Profile{"LTC_mainnetPrivateBIP32", "base58", ref.B58, "doubleSHA256", "", 74, []byte{0x04, 0x88, 0xAD, 0xE4}, nil}, addressEncoder.LTC_mainnetPrivateBIP32},
	{ref.Profile{"LTC_testnetAddressP2PKH", "base58", ref.B58, "doubleSHA256", "h160", 20, []byte{0x6F}, nil}, addressEncoder.LTC_testnetAddressP2PKH},
	{ref.Profile{"LTC_testnetAddressP2SH", "base58", ref.B58, "doubleSHA256", "h160", 20, []byte{0xC4}, nil}, addressEncoder.LTC_testnetAddressP2SH},
	{ref.Profile{"LTC_testnetAddressP2SH2", "base58", ref.B58, "doubleSHA256", "h160", 20, []byte{0x3A}, nil}, addressEncoder.LTC_testnetAddressP2SH2},
	{ref.Profile{"LTC_testnetAddressBech32V0", "bech32", ref.B32, "tltc", "h160", 20, []byte{0}, nil}, addressEncoder.LTC_testnetAddressBech32V0},
	{ref.Profile{"LTC_testnetPrivateWIF", "base58", ref.B58, "doubleSHA256", "", 32, []byte{0xEF}, nil}, addressEncoder.LTC_testnetPrivateWIF},
	{ref.Profile{"LTC_testnetPrivateWIFCompressed", "base58", ref.B58, "doubleSHA256", "", 32, []byte{0xEF}, []byte{0x01}}, addressEncoder.LTC_testnetPrivateWIFCompressed},
	{ref.Profile{"LTC_testnetPublicBIP32", "base58", ref.B58, "doubleSHA256", "", 74, []byte{0x04, 0x35, 0x87, 0xCF}, nil}, addressEncoder.LTC_testnetPublicBIP32},
	{ref.Profile{"LTC_testnetPrivateBIP32", "base58", ref.B58, "doubleSHA256", "", 74, []byte{0x04, 0x35, 0x83, 0x94}, nil}, addressEncoder.LTC_testnetPrivateBIP32},
	{ref.Profile{"BCH_mainnetAddressLegacy", "base58", ref.B58, "doubleSHA256", "h160", 20, []byte{0x00}, nil}, addressEncoder.BCH_mainnetAddressLegacy},
	{ref.Profile{"BCH_mainnetAddressCash", "cash", ref.B32, "bitcoincash", "h160", 21, nil, nil}, addressEncoder.BCH_mainnetAddressCash},
	{ref.Profile{"XTZ_mainnetAddress_tz1", "base58", ref.B58, "doubleSHA256", "blake2b160", 20, []byte{0x06, 0xA1, 0x9F}, nil}, addressEncoder.XTZ_mainnetAddress_tz1},
	{ref.Profile{"XTZ_mainnetAddress_tz2", "base58", ref.B58, "doubleSHA256", "blake2b160", 20, []byte{0x06, 0xA1, 0xA1}, nil}, addressEncoder.XTZ_mainnetAddress_tz2},
	{ref.Profile{"XTZ_mainnetAddress_tz3", "base58", ref.B58, "doubleSHA256", "blake2b160", 20, []byte{0x06, 0xA1, 0xA4}, nil}, addressEncoder.XTZ_mainnetAddress_tz3},
	{ref.Profile{"XTZ_mainnetPublic_edpk", "base58", ref.B58, "doubleSHA256", "", 32, []byte{0x0D, 0x0F, 0x25, 0xD9}, nil}, addressEncoder.XTZ_mainnetPublic_edpk},
	{ref.Profile{"XTZ_mainnetPrivate_edsk", "base58", ref.B58, "doubleSHA256", "", 64, []byte{0x0D, 0x0F, 0x3A, 0x07}, nil}, addressEncoder.XTZ_mainnetPrivate_edsk},
	{ref.Profile{"XTZ_mainnetPrivate_edsk2", "base58", ref.B58, "doubleSHA256", "", 32, []byte{0x2B, 0xF6, 0x4E, 0x07}, nil}, addressEncoder.XTZ_mainnetPrivate_edsk2},
	{ref.Profile{"XTZ_mainnetPrivate_spsk", "base58", ref.B58, "doubleSHA256", "", 32, []byte{0x11, 0xA2, 0xE0, 0xC9}, nil}, addressEncoder.XTZ_mainnetPrivate_spsk},
	{ref.Profile{"XTZ_mainnetPrivate_p2sk", "base58", ref.B58, "doubleSHA256", "blake2b160", 32, []byte{0x10, 0x51, 0xEE, 0xBD}, nil}, addressEncoder.XTZ_mainnetPrivate_p2sk},
	{ref.Profile{"ETH_mainnetPublicAddress", "eth", "", "", "keccak256", 32, nil, nil}, addressEncoder.ETH_mainnetPublicAddress},
	{ref.Profile{"QTUM_mainnetAddressP2PKH", "base58", ref.B58, "doubleSHA256", "h160", 20, []byte{0x3A}, nil}, addressEncoder.QTUM_mainnetAddressP2PKH},
	{ref.Profile{"QTUM_mainnetAddressP2SH", "base58", ref.B58, "doubleSHA256", "h160", 20, []byte{0x32}, nil}, addressEncoder.QTUM_mainnetAddressP2SH},
	{ref.Profile{"QTUM_mainnetPrivateWIF", "base58", ref.B58, "doubleSHA256", "", 32, []byte{0x80}, nil}, addressEncoder.QTUM_mainnetPrivateWIF},
	{ref.Profile{"QTUM_mainnetPrivateWIFCompressed", "base58", ref.B58, "doubleSHA256", "", 32, []byte{0x80}, []byte{0x01}}, addressEncoder.QTUM_mainnetPrivateWIFCompressed},
	{ref.Profile{"QTUM_mainnetPublicBIP32", "base58", ref.B58, "doubleSHA256", "", 74, []byte{0x04, 0x88, 0xB2, 0x1E}, nil}, addressEncoder.QTUM_mainnetPublicBIP32},
	{ref.Profile{"QTUM_mainnetPrivateBIP32", "base58", ref.B58, "doubleSHA256", "", 74, []byte{0x04, 0x88, 0xAD, 0xE4}, nil}, addressEncoder.QTUM_mainnetPrivateBIP32},
	{ref.Profile{"QTUM_testnetAddressP2PKH", "base58", ref.B58, "doubleSHA256", "h160", 20, []byte{0x78}, nil}, addressEncoder.QTUM_testnetAddressP2PKH},
	{ref.Profile{"QTUM_testnetAddressP2SH", "base58", ref.B58, "doubleSHA256", "h160", 20, []byte{0x6E}, nil}, addressEncoder.QTUM_testnetAddressP2SH},
	{ref.Profile{"QTUM_testnetPrivateWIF", "base58", ref.B58, "doubleSHA256", "", 32, []byte{0xEF}, nil}, addressEncoder.QTUM_testnetPrivateWIF},
	{ref.Profile{"QTUM_testnetPrivateWIFCompressed", "base58", ref.B58, "doubleSHA256", "", 32, []byte{0xEF}, []byte{0x01}}, addressEncoder.QTUM_testnetPrivateWIFCompressed},
	{ref.Profile{"QTUM_testnetPublicBIP32", "base58", ref.B58, "doubleSHA256", "", 74, []byte{0x04, 0x35, 0x87, 0xCF}, nil}, addressEncoder.QTUM_testnetPublicBIP32},
	{ref.Profile{"QTUM_testnetPrivateBIP32", "base58", ref.B58, "doubleSHA256", "", 74, []byte{0x04, 0x35, 0x83, 0x94}, nil}, addressEncoder.QTUM_testnetPrivateBIP32},
	{ref.Profile{"DCRD_mainnetAddressP2PKH", "base58", ref.B58, "doubleBlake256", "ripemd160", 20, []byte{0x07, 0x3f}, nil}, addressEncoder.DCRD_mainnetAddressP2PKH},
	{ref.Profile{"DCRD_mainnetAddressP2PK", "base58", ref.B58, "doubleBlake256", "ripemd160", 20, []byte{0x13, 0x86}, nil}, addressEncoder.DCRD_mainnetAddressP2PK},
	{ref.Profile{"DCRD_mainnetAddressPKHEdwards", "base58", ref.B58, "doubleBlake256", "ripemd160", 20, []byte{0x07, 0x1f}, nil}, addressEncoder.DCRD_mainnetAddressPKHEdwards},
	{ref.Profile{"DCRD_mainnetAddressPKHSchnorr", "base58", ref.B58, "doubleBlake256", "ripemd160", 20, []byte{0x07, 0x01}, nil}, addressEncoder.DCRD_mainnetAddressPKHSchnorr},
	{ref.Profile{"DCRD_mainnetAddressP2SH", "base58", ref.B58, "doubleBlake256", "ripemd160", 20, []byte{0x07, 0x1a}, nil}, addressEncoder.DCRD_mainnetAddressP2SH},
	{ref.Profile{"DCRD_mainnetAddressPrivate", "base58", ref.B58, "doubleBlake256", "ripemd160", 20, []byte{0x22, 0xde}, nil}, addressEncoder.DCRD_mainnetAddressPrivate},
	{ref.Profile{"DCRD_testnetAddressP2PKH", "base58", ref.B58, "doubleBlake256", "ripemd160", 20, []byte{0x0f, 0x21}, nil}, addressEncoder.DCRD_testnetAddressP2PKH},
	{ref.Profile{"DCRD_testnetAddressP2PK", "base58", ref.B58, "doubleBlake256", "ripemd160", 20, []byte{0x28, 0xf7}, nil}, addressEncoder.DCRD_testnetAddressP2PK},
	{ref.Profile{"DCRD_testnetAddressPKHEdwards", "base58", ref.B58, "doubleBlake256", "ripemd160", 20, []byte{0x0f, 0x01}, nil}, addressEncoder.DCRD_testnetAddressPKHEdwards},
	{ref.Profile{"DCRD_testnetAddressP2PKHSchnorr", "base58", ref.B58, "doubleBlake256", "ripemd160", 20, []byte{0x0e, 0xe3}, nil}, addressEncoder.DCRD_testnetAddressP2PKHSchnorr},
	{ref.Profile{"DCRD_testnetAddressP2SH", "base58", ref.B58, "doubleBlake256", "ripemd160", 20, []byte{0x0e, 0xfc}, nil}, addressEncoder.DCRD_testnetAddressP2SH},
	{ref.Profile{"DCRD_testnetAddressPrivate", "base58", ref.B58, "doubleBlake256", "ripemd160", 20, []byte{0x23, 0x0e}, nil}, addressEncoder.DCRD_testnetAddressPrivate},
	{ref.Profile{"DCRD_simnetAddressP2PKH", "base58", ref.B58, "doubleBlake256", "ripemd160", 20, []byte{0x0e, 0x91}, nil}, addressEncoder.DCRD_simnetAddressP2PKH},
	{ref.Profile{"DCRD_simnetAddressP2PK", "base58", ref.B58, "doubleBlake256", "ripemd160", 20, []byte{0x27, 0x6f}, nil}, addressEncoder.DCRD_simnetAddressP2PK},
	{ref.Profile{"DCRD_simnetAddressPKHEdwards", "base58", ref.B58, "doubleBlake256", "ripemd160", 20, []byte{0x0e, 0x71}, nil}, addressEncoder.DCRD_simnetAddressPKHEdwards},
	{ref.Profile{"DCRD_simnetAddressPKHSchnorr", "base58", ref.B58, "doubleBlake256", "ripemd160", 20, []byte{0x0e, 0x53}, nil}, addressEncoder.DCRD_simnetAddressPKHSchnorr},
	{ref.Profile{"DCRD_simnetAddressP2SH", "base58", ref.B58, "doubleBlake256", "ripemd160", 20, []byte{0x0e, 0x6c}, nil}, addressEncoder.DCRD_simnetAddressP2SH},
	{ref.Profile{"DCRD_simnetAddressPrivate", "base58", ref.B58, "doubleBlake256", "ripemd160", 20, []byte{0x23, 0x07}, nil}, addressEncoder.DCRD_simnetAddressPrivate},
	{ref.Profile{"NAS_AccountAddress", "base58", ref.B58, "sha3_256", "sha3_256_ripemd160", 20, []byte{0x19, 0x57}, nil}, addressEncoder.NAS_AccountAddress},
	{ref.Profile{"NAS_SmartContractAddress", "base58", ref.B58, "sha3_256", "sha3_256_ripemd160", 20, []byte{0x19, 0x58}, nil}, addressEncoder.NAS_SmartContractAddress},
	{ref.Profile{"TRON_mainnetAddress", "base58", ref.B58, "doubleSHA256", "keccak256_last_twenty", 20, []byte{0x41}, nil}, addressEncoder.TRON_mainnetAddress},
	{ref.Profile{"TRON_testnetAddress", "base58", ref.B58, "doubleSHA256", "keccak256_last_twenty", 20, []byte{0xa0}, nil}, addressEncoder.TRON_testnetAddress},
	{ref.Profile{"ICX_walletAddress", "icx", "", "hx", "sha3_256_last_twenty", 20, nil, nil}, addressEncoder.ICX_walletAddress},
	{ref.Profile{"VSYS_mainnetAddress", "base58", ref.B58, "blake2b_and_keccak256_first_twenty", "blake2b_and_keccak256_first_twenty", 20, []byte{0x05, 0x4D}, nil}, addressEncoder.VSYS_mainnetAddress},
	{ref.Profile{"VSYS_testnetAddress", "base58", ref.B58, "blake2b_and_keccak256_first_twenty", "blake2b_and_keccak256_first_twenty", 20, []byte{0x05, 0x54}, nil}, addressEncoder.VSYS_testnetAddress},
	{ref.Profile{"EOS_mainnetPublic", "eos", ref.B58, "ripemd160", "", 33, []byte("EOS"), nil}, addressEncoder.EOS_mainnetPublic},
	{ref.Profile{"EOS_mainnetPrivateWIF", "base58", ref.B58, "doubleSHA256", "", 32, []byte{0x80}, nil}, addressEncoder.EOS_mainnetPrivateWIF},
	{ref.Profile{"EOS_mainnetPrivateWIFCompressed", "base58", ref.B58, "doubleSHA256", "", 32, []byte{0x80}, []byte{0x01}}, addressEncoder.EOS_mainnetPrivateWIFCompressed},
	{ref.Profile{"AE_mainnetAddress", "ae", ref.B58, "doubleSHA256", "", 32, []byte("ak_"), nil}, addressEncoder.AE_mainnetAddress},
	{ref.Profile{"ATOM_mainnetAddress", "bech32", ref.B32, "cosmos", "h160", 20, nil, nil}, addressEncoder.ATOM_mainnetAddress},
	{ref.Profile{"ATOM_testnetAddress", "bech32", ref.B32, "cosmos", "h160", 20, nil, nil}, addressEncoder.ATOM_testnetAddress},
	{ref.Profile{"ELA_Address", "base58", ref.B58, "doubleSHA256", "h160", 20, []byte{0x21}, nil}, addressEncoder.ELA_Address},
	{ref.Profile{"WICC_mainnetAddressP2PKH", "base58", ref.B58, "doubleSHA256", "h160", 20, []byte{0x49}, nil}, addressEncoder.WICC_mainnetAddressP2PKH},
	{ref.Profile{"WICC_testnetAddressP2PKH", "base58", ref.B58, "doubleSHA256", "h160", 20, []byte{0x87}, nil}, addressEncoder.WICC_testnetAddressP2PKH},
	{ref.Profile{"TV_mainnetAddress", "base58", ref.B58, "blake2b_and_keccak256_first_twenty", "blake2b_and_keccak256_first_twenty", 20, []byte{0x1D, 0x3B}, nil}, addressEncoder.TV_mainnetAddress},
	{ref.Profile{"TV_testnetAddress", "base58", ref.B58, "blake2b_and_keccak256_first_twenty", "blake2b_and_keccak256_first_twenty", 20, []byte{0x1D, 0x54}, nil}, addressEncoder.TV_testnetAddress},
	{ref.Profile{"HC_mainnetPublicAddress", "base58", ref.B58, "doubleBlake256", "h160", 20, []byte{0x09, 0x7F}, nil}, addressEncoder.HC_mainnetPublicAddress},
	{ref.Profile{"HC_mainnetAddressP2PK", "base58", ref.B58, "doubleBlake256", "h160", 20, []byte{0x19, 0xa4}, nil}, addressEncoder.HC_mainnetAddressP2PK},
	{ref.Profile{"HC_mainnetAddressP2PKBliss", "base58", ref.B58, "doubleBlake256", "h160", 20, []byte{0x07, 0xc3}, nil}, addressEncoder.HC_mainnetAddressP2PKBliss},
	{ref.Profile{"HC_mainnetAddressP2PKH", "base58", ref.B58, "doubleBlake256", "h160", 20, []byte{0x09, 0x7f}, nil}, addressEncoder.HC_mainnetAddressP2PKH},
	{ref.Profile{"HC_mainnetAddressPKHEdwards", "base58", ref.B58, "doubleBlake256", "h160", 20, []byte{0x09, 0x60}, nil}, addressEncoder.HC_mainnetAddressPKHEdwards},
	{ref.Profile{"HC_mainnetAddressPKHSchnorr", "base58", ref.B58, "doubleBlake256", "h160", 20, []byte{0x09, 0x41}, nil}, addressEncoder.HC_mainnetAddressPKHSchnorr},
	{ref.Profile{"HC_mainnetAddressPKHBliss", "base58", ref.B58, "doubleBlake256", "h160", 20, []byte{0x09, 0x58}, nil}, addressEncoder.HC_mainnetAddressPKHBliss},
	{ref.Profile{"HC_mainnetAddressP2SH", "base58", ref.B58, "doubleBlake256", "h160", 20, []byte{0x09, 0x5a}, nil}, addressEncoder.HC_mainnetAddressP2SH},
	{ref.Profile{"HC_mainnetAddressPrivate", "base58", ref.B58, "doubleBlake256", "h160", 20, []byte{0x19, 0xab}, nil}, addressEncoder.HC_mainnetAddressPrivate},
	{ref.Profile{"HC_testnetAddressP2PK", "base58", ref.B58, "doubleBlake256", "h160", 20, []byte{0x28, 0xf7}, nil}, addressEncoder.HC_testnetAddressP2PK},
	{ref.Profile{"HC_testnetAddressP2PKBliss", "base58", ref.B58, "doubleBlake256", "h160", 20, []byte{0x0c, 0x66}, nil}, addressEncoder.HC_testnetAddressP2PKBliss},
	{ref.Profile{"HC_testnetAddressP2PKH", "base58", ref.B58, "doubleBlake256", "h160", 20, []byte{0x0f, 0x21}, nil}, addressEncoder.HC_testnetAddressP2PKH},
	{ref.Profile{"HC_testnetAddressPKHEdwards", "base58", ref.B58, "doubleBlake256", "h160", 20, []byte{0x0f, 0x01}, nil}, addressEncoder.HC_testnetAddressPKHEdwards},
	{ref.Profile{"HC_testnetAddressP2PKHSchnorr", "base58", ref.B58, "doubleBlake256", "h160", 20, []byte{0x0e, 0xe3}, nil}, addressEncoder.HC_testnetAddressP2PKHSchnorr},
	{ref.Profile{"HC_testnetAddressPKHBliss", "base58", ref.B58, "doubleBlake256", "h160", 20, []byte{0x0e, 0xf9}, nil}, addressEncoder.HC_testnetAddressPKHBliss},
	{ref.Profile{"HC_testnetAddressP2SH", "base58", ref.B58, "doubleBlake256", "h160", 20, []byte{0x0e, 0xfc}, nil}, addressEncoder.HC_testnetAddressP2SH},
	{ref.Profile{"HC_testnetAddressPrivate", "base58", ref.B58, "doubleBlake256", "h160", 20, []byte{0x23, 0x0e}, nil}, addressEncoder.HC_testnetAddressPrivate},
	{ref.Profile{"HC_simnetAddressP2PK", "base58", ref.B58, "doubleBlake256", "h160", 20, []byte{0x27, 0x6f}, nil}, addressEncoder.HC_simnetAddressP2PK},
	{ref.Profile{"HC_simnetAddressP2PKBliss", "base58", ref.B58, "doubleBlake256", "h160", 20, []byte{0x0b, 0xef}, nil}, addressEncoder.HC_simnetAddressP2PKBliss},
	{ref.Profile{"HC_simnetAddressP2PKH", "base58", ref.B58, "doubleBlake256", "h160", 20, []byte{0x0e, 0x91}, nil}, addressEncoder.HC_simnetAddressP2PKH},
	{ref.Profile{"HC_simnetAddressPKHEdwards", "base58", ref.B58, "doubleBlake256", "h160", 20, []byte{0x0e, 0x71}, nil}, addressEncoder.HC_simnetAddressPKHEdwards},
	{ref.Profile{"HC_simnetAddressPKHSchnorr", "base58", ref.B58, "doubleBlake256", "h160", 20, []byte{0x0e, 0x53}, nil}, addressEncoder.HC_simnetAddressPKHSchnorr},
	{ref.Profile{"HC_simnetAddressPKHBliss", "base58", ref.B58, "doubleBlake256", "h160", 20, []byte{0x0e, 0x69}, nil}, addressEncoder.HC_simnetAddressPKHBliss},
	{ref.Profile{"HC_simnetAddressP2SH", "base58", ref.B58, "doubleBlake256", "h160", 20, []byte{0x0e, 0x6c}, nil}, addressEncoder.HC_simnetAddressP2SH},
	{ref.Profile{"HC_simnetAddressPrivate", "base58", ref.B58, "doubleBlake256", "h160", 20, []byte{0x23, 0x07}, nil}, addressEncoder.HC_simnetAddressPrivate},
	{ref.Profile{"BNB_mainnetAddress", "bech32", ref.B32, "bnb", "h160", 20, nil, nil}, addressEncoder.BNB_mainnetAddress},
	{ref.Profile{"BSV_mainnetAddressP2PKH", "base58", ref.B58, "doubleSHA256", "h160", 20, []byte{0x00}, nil}, addressEncoder.BSV_mainnetAddressP2PKH},
	{ref.Profile{"BSV_mainnetAddressP2SH", "base58", ref.B58, "doubleSHA256", "h160", 20, []byte{0x05}, nil}, addressEncoder.BSV_mainnetAddressP2SH},
	{ref.Profile{"EVA_mainnetAddress", "bech32", ref.B32, "eva", "h160", 20, nil, nil}, addressEncoder.EVA_mainnetAddress},
	{ref.Profile{"EVA_testnetAddress", "bech32", ref.B32, "eva", "h160", 20, nil, nil}, addressEncoder.EVA_testnetAddress},
	{ref.Profile{"XCH_mainnetAddress", "bech32m", ref.B32, "xch", "", 32, nil, nil}, addressEncoder.XCH_mainnetAddress},
}
