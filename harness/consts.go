package main

import (
	"strings"

	"github.com/libsv/libsv/script"
	"github.com/libsv/libsv/script/address"
	"github.com/libsv/libsv/transaction/signature/sighash"

	"verif/harness/ref"
)

// A constant of the library that its users write into their own code, which
// the library itself may never look at.
type constant struct {
	name      string
	got, want interface{}
}

func checkConstants(c *C, l []constant) {
	for _, k := range l {
		c.In("constant", k.name)
		c.Check(k.got == k.want, "the constant %s is %v and not %v", k.name, k.got, k.want)
		c.Hit("constant")
	}
}

func signingConstants(c *C) {
	checkConstants(c, []constant{
		{"sighash.Old", int(sighash.Old), 0},
		{"sighash.All", int(sighash.All), 1},
		{"sighash.None", int(sighash.None), 2},
		{"sighash.Single", int(sighash.Single), 3},
		{"sighash.AnyOneCanPay", int(sighash.AnyOneCanPay), 0x80},
		{"sighash.ForkID", int(sighash.ForkID), 0x40},
		{"sighash.AllForkID", int(sighash.AllForkID), 0x41},
		{"sighash.NoneForkID", int(sighash.NoneForkID), 0x42},
		{"sighash.SingleForkID", int(sighash.SingleForkID), 0x43},
		{"sighash.AnyOneCanPayForkID", int(sighash.AnyOneCanPayForkID), 0xc0},
		{"sighash.Mask", int(sighash.Mask), 0x1f},
	})
}

func bip276Constants(c *C) {
	checkConstants(c, []constant{
		{"address.PrefixScript", string(address.PrefixScript), "bitcoin-script"},
		{"address.PrefixTemplate", string(address.PrefixTemplate), "bitcoin-template"},
		{"address.CurrentVersion", int(address.CurrentVersion), 1},
		{"address.NetworkMainnet", int(address.NetworkMainnet), 1},
		{"address.NetworkTestnet", int(address.NetworkTestnet), 2},
	})
}

// The names of opcodes are the names of their constants with OP_ for Op, but
// for OP_DATA_1 to OP_DATA_75, which are OpDATA1 to OpDATA75.
func opcodeConstants(c *C) {
	l := make([]constant, len(opConsts))
	for i, k := range opConsts {
		n := "OP_" + strings.TrimPrefix(k.name, "Op")
		if strings.HasPrefix(n, "OP_DATA") {
			n = "OP_DATA_" + strings.TrimPrefix(n, "OP_DATA")
		}
		want, ok := ref.OpNames[n]
		if !ok {
			panic("no opcode " + n)
		}
		l[i] = constant{"script." + k.name, k.value, int(want)}
	}
	checkConstants(c, l)
}

var opConsts = []struct {
	name  string
	value int
}{
	{"Op0", int(script.Op0)},
	{"OpZERO", int(script.OpZERO)},
	{"OpFALSE", int(script.OpFALSE)},
	{"OpDATA1", int(script.OpDATA1)},
	{"OpDATA2", int(script.OpDATA2)},
	{"OpDATA3", int(script.OpDATA3)},
	{"OpDATA4", int(script.OpDATA4)},
	{"OpDATA5", int(script.OpDATA5)},
	{"OpDATA6", int(script.OpDATA6)},
	{"OpDATA7", int(script.OpDATA7)},
	{"OpDATA8", int(script.OpDATA8)},
	{"OpDATA9", int(script.OpDATA9)},
	{"OpDATA10", int(script.OpDATA10)},
	{"OpDATA11", int(script.OpDATA11)},
	{"OpDATA12", int(script.OpDATA12)},
	{"OpDATA13", int(script.OpDATA13)},
	{"OpDATA14", int(script.OpDATA14)},
	{"OpDATA15", int(script.OpDATA15)},
	{"OpDATA16", int(script.OpDATA16)},
	{"OpDATA17", int(script.OpDATA17)},
	{"OpDATA18", int(script.OpDATA18)},
	{"OpDATA19", int(script.OpDATA19)},
	{"OpDATA20", int(script.OpDATA20)},
	{"OpDATA21", int(script.OpDATA21)},
	{"OpDATA22", int(script.OpDATA22)},
	{"OpDATA23", int(script.OpDATA23)},
	{"OpDATA24", int(script.OpDATA24)},
	{"OpDATA25", int(script.OpDATA25)},
	{"OpDATA26", int(script.OpDATA26)},
	{"OpDATA27", int(script.OpDATA27)},
	{"OpDATA28", int(script.OpDATA28)},
	{"OpDATA29", int(script.OpDATA29)},
	{"OpDATA30", int(script.OpDATA30)},
	{"OpDATA31", int(script.OpDATA31)},
	{"OpDATA32", int(script.OpDATA32)},
	{"OpDATA33", int(script.OpDATA33)},
	{"OpDATA34", int(script.OpDATA34)},
	{"OpDATA35", int(script.OpDATA35)},
	{"OpDATA36", int(script.OpDATA36)},
	{"OpDATA37", int(script.OpDATA37)},
	{"OpDATA38", int(script.OpDATA38)},
	{"OpDATA39", int(script.OpDATA39)},
	{"OpDATA40", int(script.OpDATA40)},
	{"OpDATA41", int(script.OpDATA41)},
	{"OpDATA42", int(script.OpDATA42)},
	{"OpDATA43", int(script.OpDATA43)},
	{"OpDATA44", int(script.OpDATA44)},
	{"OpDATA45", int(script.OpDATA45)},
	{"OpDATA46", int(script.OpDATA46)},
	{"OpDATA47", int(script.OpDATA47)},
	{"OpDATA48", int(script.OpDATA48)},
	{"OpDATA49", int(script.OpDATA49)},
	{"OpDATA50", int(script.OpDATA50)},
	{"OpDATA51", int(script.OpDATA51)},
	{"OpDATA52", int(script.OpDATA52)},
	{"OpDATA53", int(script.OpDATA53)},
	{"OpDATA54", int(script.OpDATA54)},
	{"OpDATA55", int(script.OpDATA55)},
	{"OpDATA56", int(script.OpDATA56)},
	{"OpDATA57", int(script.OpDATA57)},
	{"OpDATA58", int(script.OpDATA58)},
	{"OpDATA59", int(script.OpDATA59)},
	{"OpDATA60", int(script.OpDATA60)},
	{"OpDATA61", int(script.OpDATA61)},
	{"OpDATA62", int(script.OpDATA62)},
	{"OpDATA63", int(script.OpDATA63)},
	{"OpDATA64", int(script.OpDATA64)},
	{"OpDATA65", int(script.OpDATA65)},
	{"OpDATA66", int(script.OpDATA66)},
	{"OpDATA67", int(script.OpDATA67)},
	{"OpDATA68", int(script.OpDATA68)},
	{"OpDATA69", int(script.OpDATA69)},
	{"OpDATA70", int(script.OpDATA70)},
	{"OpDATA71", int(script.OpDATA71)},
	{"OpDATA72", int(script.OpDATA72)},
	{"OpDATA73", int(script.OpDATA73)},
	{"OpDATA74", int(script.OpDATA74)},
	{"OpDATA75", int(script.OpDATA75)},
	{"OpPUSHDATA1", int(script.OpPUSHDATA1)},
	{"OpPUSHDATA2", int(script.OpPUSHDATA2)},
	{"OpPUSHDATA4", int(script.OpPUSHDATA4)},
	{"Op1NEGATE", int(script.Op1NEGATE)},
	{"OpRESERVED", int(script.OpRESERVED)},
	{"OpBASE", int(script.OpBASE)},
	{"Op1", int(script.Op1)},
	{"OpONE", int(script.OpONE)},
	{"OpTRUE", int(script.OpTRUE)},
	{"Op2", int(script.Op2)},
	{"Op3", int(script.Op3)},
	{"Op4", int(script.Op4)},
	{"Op5", int(script.Op5)},
	{"Op6", int(script.Op6)},
	{"Op7", int(script.Op7)},
	{"Op8", int(script.Op8)},
	{"Op9", int(script.Op9)},
	{"Op10", int(script.Op10)},
	{"Op11", int(script.Op11)},
	{"Op12", int(script.Op12)},
	{"Op13", int(script.Op13)},
	{"Op14", int(script.Op14)},
	{"Op15", int(script.Op15)},
	{"Op16", int(script.Op16)},
	{"OpNOP", int(script.OpNOP)},
	{"OpVER", int(script.OpVER)},
	{"OpIF", int(script.OpIF)},
	{"OpNOTIF", int(script.OpNOTIF)},
	{"OpVERIF", int(script.OpVERIF)},
	{"OpVERNOTIF", int(script.OpVERNOTIF)},
	{"OpELSE", int(script.OpELSE)},
	{"OpENDIF", int(script.OpENDIF)},
	{"OpVERIFY", int(script.OpVERIFY)},
	{"OpRETURN", int(script.OpRETURN)},
	{"OpTOALTSTACK", int(script.OpTOALTSTACK)},
	{"OpFROMALTSTACK", int(script.OpFROMALTSTACK)},
	{"Op2DROP", int(script.Op2DROP)},
	{"Op2DUP", int(script.Op2DUP)},
	{"Op3DUP", int(script.Op3DUP)},
	{"Op2OVER", int(script.Op2OVER)},
	{"Op2ROT", int(script.Op2ROT)},
	{"Op2SWAP", int(script.Op2SWAP)},
	{"OpIFDUP", int(script.OpIFDUP)},
	{"OpDEPTH", int(script.OpDEPTH)},
	{"OpDROP", int(script.OpDROP)},
	{"OpDUP", int(script.OpDUP)},
	{"OpNIP", int(script.OpNIP)},
	{"OpOVER", int(script.OpOVER)},
	{"OpPICK", int(script.OpPICK)},
	{"OpROLL", int(script.OpROLL)},
	{"OpROT", int(script.OpROT)},
	{"OpSWAP", int(script.OpSWAP)},
	{"OpTUCK", int(script.OpTUCK)},
	{"OpCAT", int(script.OpCAT)},
	{"OpSPLIT", int(script.OpSPLIT)},
	{"OpNUM2BIN", int(script.OpNUM2BIN)},
	{"OpBIN2NUM", int(script.OpBIN2NUM)},
	{"OpSIZE", int(script.OpSIZE)},
	{"OpINVERT", int(script.OpINVERT)},
	{"OpAND", int(script.OpAND)},
	{"OpOR", int(script.OpOR)},
	{"OpXOR", int(script.OpXOR)},
	{"OpEQUAL", int(script.OpEQUAL)},
	{"OpEQUALVERIFY", int(script.OpEQUALVERIFY)},
	{"OpRESERVED1", int(script.OpRESERVED1)},
	{"OpRESERVED2", int(script.OpRESERVED2)},
	{"Op1ADD", int(script.Op1ADD)},
	{"Op1SUB", int(script.Op1SUB)},
	{"Op2MUL", int(script.Op2MUL)},
	{"Op2DIV", int(script.Op2DIV)},
	{"OpNEGATE", int(script.OpNEGATE)},
	{"OpABS", int(script.OpABS)},
	{"OpNOT", int(script.OpNOT)},
	{"Op0NOTEQUAL", int(script.Op0NOTEQUAL)},
	{"OpADD", int(script.OpADD)},
	{"OpSUB", int(script.OpSUB)},
	{"OpMUL", int(script.OpMUL)},
	{"OpDIV", int(script.OpDIV)},
	{"OpMOD", int(script.OpMOD)},
	{"OpLSHIFT", int(script.OpLSHIFT)},
	{"OpRSHIFT", int(script.OpRSHIFT)},
	{"OpBOOLAND", int(script.OpBOOLAND)},
	{"OpBOOLOR", int(script.OpBOOLOR)},
	{"OpNUMEQUAL", int(script.OpNUMEQUAL)},
	{"OpNUMEQUALVERIFY", int(script.OpNUMEQUALVERIFY)},
	{"OpNUMNOTEQUAL", int(script.OpNUMNOTEQUAL)},
	{"OpLESSTHAN", int(script.OpLESSTHAN)},
	{"OpGREATERTHAN", int(script.OpGREATERTHAN)},
	{"OpLESSTHANOREQUAL", int(script.OpLESSTHANOREQUAL)},
	{"OpGREATERTHANOREQUAL", int(script.OpGREATERTHANOREQUAL)},
	{"OpMIN", int(script.OpMIN)},
	{"OpMAX", int(script.OpMAX)},
	{"OpWITHIN", int(script.OpWITHIN)},
	{"OpRIPEMD160", int(script.OpRIPEMD160)},
	{"OpSHA1", int(script.OpSHA1)},
	{"OpSHA256", int(script.OpSHA256)},
	{"OpHASH160", int(script.OpHASH160)},
	{"OpHASH256", int(script.OpHASH256)},
	{"OpCODESEPARATOR", int(script.OpCODESEPARATOR)},
	{"OpCHECKSIG", int(script.OpCHECKSIG)},
	{"OpCHECKSIGVERIFY", int(script.OpCHECKSIGVERIFY)},
	{"OpCHECKMULTISIG", int(script.OpCHECKMULTISIG)},
	{"OpCHECKMULTISIGVERIFY", int(script.OpCHECKMULTISIGVERIFY)},
	{"OpNOP1", int(script.OpNOP1)},
	{"OpNOP2", int(script.OpNOP2)},
	{"OpNOP3", int(script.OpNOP3)},
	{"OpNOP4", int(script.OpNOP4)},
	{"OpNOP5", int(script.OpNOP5)},
	{"OpNOP6", int(script.OpNOP6)},
	{"OpNOP7", int(script.OpNOP7)},
	{"OpNOP8", int(script.OpNOP8)},
	{"OpNOP9", int(script.OpNOP9)},
	{"OpNOP10", int(script.OpNOP10)},
	{"OpUNKNOWN186", int(script.OpUNKNOWN186)},
	{"OpUNKNOWN187", int(script.OpUNKNOWN187)},
	{"OpUNKNOWN188", int(script.OpUNKNOWN188)},
	{"OpUNKNOWN189", int(script.OpUNKNOWN189)},
	{"OpUNKNOWN190", int(script.OpUNKNOWN190)},
	{"OpUNKNOWN191", int(script.OpUNKNOWN191)},
	{"OpUNKNOWN192", int(script.OpUNKNOWN192)},
	{"OpUNKNOWN193", int(script.OpUNKNOWN193)},
	{"OpUNKNOWN194", int(script.OpUNKNOWN194)},
	{"OpUNKNOWN195", int(script.OpUNKNOWN195)},
	{"OpUNKNOWN196", int(script.OpUNKNOWN196)},
	{"OpUNKNOWN197", int(script.OpUNKNOWN197)},
	{"OpUNKNOWN198", int(script.OpUNKNOWN198)},
	{"OpUNKNOWN199", int(script.OpUNKNOWN199)},
	{"OpUNKNOWN200", int(script.OpUNKNOWN200)},
	{"OpUNKNOWN201", int(script.OpUNKNOWN201)},
	{"OpUNKNOWN202", int(script.OpUNKNOWN202)},
	{"OpUNKNOWN203", int(script.OpUNKNOWN203)},
	{"OpUNKNOWN204", int(script.OpUNKNOWN204)},
	{"OpUNKNOWN205", int(script.OpUNKNOWN205)},
	{"OpUNKNOWN206", int(script.OpUNKNOWN206)},
	{"OpUNKNOWN207", int(script.OpUNKNOWN207)},
	{"OpUNKNOWN208", int(script.OpUNKNOWN208)},
	{"OpUNKNOWN209", int(script.OpUNKNOWN209)},
	{"OpUNKNOWN210", int(script.OpUNKNOWN210)},
	{"OpUNKNOWN211", int(script.OpUNKNOWN211)},
	{"OpUNKNOWN212", int(script.OpUNKNOWN212)},
	{"OpUNKNOWN213", int(script.OpUNKNOWN213)},
	{"OpUNKNOWN214", int(script.OpUNKNOWN214)},
	{"OpUNKNOWN215", int(script.OpUNKNOWN215)},
	{"OpUNKNOWN216", int(script.OpUNKNOWN216)},
	{"OpUNKNOWN217", int(script.OpUNKNOWN217)},
	{"OpUNKNOWN218", int(script.OpUNKNOWN218)},
	{"OpUNKNOWN219", int(script.OpUNKNOWN219)},
	{"OpUNKNOWN220", int(script.OpUNKNOWN220)},
	{"OpUNKNOWN221", int(script.OpUNKNOWN221)},
	{"OpUNKNOWN222", int(script.OpUNKNOWN222)},
	{"OpUNKNOWN223", int(script.OpUNKNOWN223)},
	{"OpUNKNOWN224", int(script.OpUNKNOWN224)},
	{"OpUNKNOWN225", int(script.OpUNKNOWN225)},
	{"OpUNKNOWN226", int(script.OpUNKNOWN226)},
	{"OpUNKNOWN227", int(script.OpUNKNOWN227)},
	{"OpUNKNOWN228", int(script.OpUNKNOWN228)},
	{"OpUNKNOWN229", int(script.OpUNKNOWN229)},
	{"OpUNKNOWN230", int(script.OpUNKNOWN230)},
	{"OpUNKNOWN231", int(script.OpUNKNOWN231)},
	{"OpUNKNOWN232", int(script.OpUNKNOWN232)},
	{"OpUNKNOWN233", int(script.OpUNKNOWN233)},
	{"OpUNKNOWN234", int(script.OpUNKNOWN234)},
	{"OpUNKNOWN235", int(script.OpUNKNOWN235)},
	{"OpUNKNOWN236", int(script.OpUNKNOWN236)},
	{"OpUNKNOWN237", int(script.OpUNKNOWN237)},
	{"OpUNKNOWN238", int(script.OpUNKNOWN238)},
	{"OpUNKNOWN239", int(script.OpUNKNOWN239)},
	{"OpUNKNOWN240", int(script.OpUNKNOWN240)},
	{"OpUNKNOWN241", int(script.OpUNKNOWN241)},
	{"OpUNKNOWN242", int(script.OpUNKNOWN242)},
	{"OpUNKNOWN243", int(script.OpUNKNOWN243)},
	{"OpUNKNOWN244", int(script.OpUNKNOWN244)},
	{"OpUNKNOWN245", int(script.OpUNKNOWN245)},
	{"OpUNKNOWN246", int(script.OpUNKNOWN246)},
	{"OpUNKNOWN247", int(script.OpUNKNOWN247)},
	{"OpUNKNOWN248", int(script.OpUNKNOWN248)},
	{"OpUNKNOWN249", int(script.OpUNKNOWN249)},
	{"OpSMALLINTEGER", int(script.OpSMALLINTEGER)},
	{"OpPUBKEYS", int(script.OpPUBKEYS)},
	{"OpUNKNOWN252", int(script.OpUNKNOWN252)},
	{"OpPUBKEYHASH", int(script.OpPUBKEYHASH)},
	{"OpPUBKEY", int(script.OpPUBKEY)},
	{"OpINVALIDOPCODE", int(script.OpINVALIDOPCODE)},
}
