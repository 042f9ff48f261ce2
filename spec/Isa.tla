-------------------------------- MODULE Isa --------------------------------
(***************************************************************************)
(* The instruction sets, as the processors' manufacturers define them:      *)
(* mnemonic, class of operand forms, opcode.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences

T6800 == <<
  <<"bra", "branch", 32>>, <<"bhi", "branch", 34>>, <<"bls", "branch", 35>>, <<"bcc", "branch", 36>>, <<"bcs", "branch", 37>>,
  <<"bne", "branch", 38>>, <<"beq", "branch", 39>>, <<"bvc", "branch", 40>>, <<"bvs", "branch", 41>>, <<"bpl", "branch", 42>>,
  <<"bmi", "branch", 43>>, <<"bge", "branch", 44>>, <<"blt", "branch", 45>>, <<"bgt", "branch", 46>>, <<"ble", "branch", 47>>,
  <<"bsr", "branch", 141>>, <<"nop", "inherent", 1>>, <<"tap", "inherent", 6>>, <<"tpa", "inherent", 7>>, <<"inx", "inherent", 8>>,
  <<"dex", "inherent", 9>>, <<"clv", "inherent", 10>>, <<"sev", "inherent", 11>>, <<"clc", "inherent", 12>>, <<"sec", "inherent", 13>>,
  <<"cli", "inherent", 14>>, <<"sei", "inherent", 15>>, <<"sba", "inherent", 16>>, <<"cba", "inherent", 17>>, <<"tab", "inherent", 22>>,
  <<"tba", "inherent", 23>>, <<"daa", "inherent", 25>>, <<"aba", "inherent", 27>>, <<"tsx", "inherent", 48>>, <<"ins", "inherent", 49>>,
  <<"pula", "inherent", 50>>, <<"pulb", "inherent", 51>>, <<"des", "inherent", 52>>, <<"txs", "inherent", 53>>, <<"psha", "inherent", 54>>,
  <<"pshb", "inherent", 55>>, <<"rts", "inherent", 57>>, <<"rti", "inherent", 59>>, <<"wai", "inherent", 62>>, <<"swi", "inherent", 63>>,
  <<"nega", "inherent", 64>>, <<"negb", "inherent", 80>>, <<"coma", "inherent", 67>>, <<"comb", "inherent", 83>>, <<"lsra", "inherent", 68>>,
  <<"lsrb", "inherent", 84>>, <<"rora", "inherent", 70>>, <<"rorb", "inherent", 86>>, <<"asra", "inherent", 71>>, <<"asrb", "inherent", 87>>,
  <<"asla", "inherent", 72>>, <<"aslb", "inherent", 88>>, <<"rola", "inherent", 73>>, <<"rolb", "inherent", 89>>, <<"deca", "inherent", 74>>,
  <<"decb", "inherent", 90>>, <<"inca", "inherent", 76>>, <<"incb", "inherent", 92>>, <<"tsta", "inherent", 77>>, <<"tstb", "inherent", 93>>,
  <<"clra", "inherent", 79>>, <<"clrb", "inherent", 95>>, <<"neg", "m_indext", 64>>, <<"com", "m_indext", 67>>, <<"lsr", "m_indext", 68>>,
  <<"ror", "m_indext", 70>>, <<"asr", "m_indext", 71>>, <<"asl", "m_indext", 72>>, <<"rol", "m_indext", 73>>, <<"dec", "m_indext", 74>>,
  <<"inc", "m_indext", 76>>, <<"tst", "m_indext", 77>>, <<"jmp", "m_indext", 78>>, <<"clr", "m_indext", 79>>, <<"jsr", "m_indext", 141>>,
  <<"suba", "m_all", 128>>, <<"subb", "m_all", 192>>, <<"cmpa", "m_all", 129>>, <<"cmpb", "m_all", 193>>, <<"sbca", "m_all", 130>>,
  <<"sbcb", "m_all", 194>>, <<"bita", "m_all", 133>>, <<"bitb", "m_all", 197>>, <<"ldaa", "m_all", 134>>, <<"ldab", "m_all", 198>>,
  <<"eora", "m_all", 136>>, <<"eorb", "m_all", 200>>, <<"adca", "m_all", 137>>, <<"adcb", "m_all", 201>>, <<"oraa", "m_all", 138>>,
  <<"orab", "m_all", 202>>, <<"adda", "m_all", 139>>, <<"addb", "m_all", 203>>, <<"anda", "m_all", 132>>, <<"andb", "m_all", 196>>,
  <<"staa", "m_noimm", 135>>, <<"stab", "m_noimm", 199>>, <<"sts", "m_noimm", 143>>, <<"stx", "m_noimm", 207>>, <<"cpx", "m_all16", 140>>,
  <<"lds", "m_all16", 142>>, <<"ldx", "m_all16", 206>> >>

T6801 == <<
  <<"lsrd", "inherent", 4>>, <<"asld", "inherent", 5>>, <<"brn", "branch", 33>>, <<"pulx", "inherent", 56>>, <<"abx", "inherent", 58>>,
  <<"pshx", "inherent", 60>>, <<"mul", "inherent", 61>>, <<"subd", "m_all16", 131>>, <<"addd", "m_all16", 195>>, <<"ldd", "m_all16", 204>>,
  <<"std", "m_noimm", 205>> >>

T6502 == <<
  <<"bpl", "branch", 16>>, <<"bmi", "branch", 48>>, <<"bvc", "branch", 80>>, <<"bvs", "branch", 112>>, <<"bcc", "branch", 144>>,
  <<"bcs", "branch", 176>>, <<"bne", "branch", 208>>, <<"beq", "branch", 240>>, <<"bhi", "branch", 176>>, <<"blo", "branch", 144>>,
  <<"bgt", "branch", 16>>, <<"ble", "branch", 48>>, <<"nop", "inherent", 234>>, <<"brk", "inherent", 0>>, <<"rti", "inherent", 64>>,
  <<"rts", "inherent", 96>>, <<"pha", "inherent", 72>>, <<"pla", "inherent", 104>>, <<"php", "inherent", 8>>, <<"plp", "inherent", 40>>,
  <<"dex", "inherent", 202>>, <<"dey", "inherent", 136>>, <<"inx", "inherent", 232>>, <<"iny", "inherent", 200>>, <<"tsx", "inherent", 186>>,
  <<"txs", "inherent", 154>>, <<"tax", "inherent", 170>>, <<"txa", "inherent", 138>>, <<"tay", "inherent", 168>>, <<"tya", "inherent", 152>>,
  <<"clc", "inherent", 24>>, <<"clv", "inherent", 184>>, <<"cli", "inherent", 88>>, <<"cld", "inherent", 216>>, <<"sec", "inherent", 56>>,
  <<"sei", "inherent", 120>>, <<"sed", "inherent", 248>>, <<"ora", "op6502", 1>>, <<"and", "op6502", 2>>, <<"eor", "op6502", 3>>,
  <<"adc", "op6502", 4>>, <<"sta", "op6502", 5>>, <<"lda", "op6502", 6>>, <<"cmp", "op6502", 7>>, <<"sbc", "op6502", 8>>,
  <<"asl", "op6502", 9>>, <<"rol", "op6502", 10>>, <<"lsr", "op6502", 11>>, <<"ror", "op6502", 12>>, <<"ldx", "op6502", 13>>,
  <<"ldy", "op6502", 14>>, <<"cpx", "op6502", 15>>, <<"cpy", "op6502", 16>>, <<"stx", "op6502", 17>>, <<"sty", "op6502", 18>>,
  <<"inc", "op6502", 19>>, <<"bit", "op6502", 20>>, <<"dec", "op6502", 21>>, <<"jmp", "op6502", 22>>, <<"jsr", "op6502", 23>>,
  <<"a", "reg", 0>>, <<"x", "reg", 1>>, <<"y", "reg", 2>>, <<"p", "reg", 3>>, <<"s", "reg", 4>> >>

T65C02 == <<
  <<"phx", "inherent", 218>>, <<"plx", "inherent", 250>>, <<"phy", "inherent", 90>>, <<"ply", "inherent", 122>>, <<"bra", "branch", 128>>,
  <<"stz", "op6502", 24>>, <<"tsb", "op6502", 25>>, <<"trb", "op6502", 26>> >>

\* opcodes of the operand forms; +1000: on the 65C02 only
Op6502 == <<
  \* ora
  [zpix |-> 1, abix |-> -1, zpiy |-> 17, zpi |-> 1018, abi |-> -1, zpx |-> 21, abx |-> 29, zpy |-> -1, aby |-> 25, zp |-> 5, abs |-> 13, imm |-> 9, acc |-> -1],
  \* and
  [zpix |-> 33, abix |-> -1, zpiy |-> 49, zpi |-> 1050, abi |-> -1, zpx |-> 53, abx |-> 61, zpy |-> -1, aby |-> 57, zp |-> 37, abs |-> 45, imm |-> 41, acc |-> -1],
  \* eor
  [zpix |-> 65, abix |-> -1, zpiy |-> 81, zpi |-> 1082, abi |-> -1, zpx |-> 85, abx |-> 93, zpy |-> -1, aby |-> 89, zp |-> 69, abs |-> 77, imm |-> 73, acc |-> -1],
  \* adc
  [zpix |-> 97, abix |-> -1, zpiy |-> 113, zpi |-> 1114, abi |-> -1, zpx |-> 117, abx |-> 125, zpy |-> -1, aby |-> 121, zp |-> 101, abs |-> 109, imm |-> 105, acc |-> -1],
  \* sta
  [zpix |-> 129, abix |-> -1, zpiy |-> 145, zpi |-> 1146, abi |-> -1, zpx |-> 149, abx |-> 157, zpy |-> -1, aby |-> 153, zp |-> 133, abs |-> 141, imm |-> -1, acc |-> -1],
  \* lda
  [zpix |-> 161, abix |-> -1, zpiy |-> 177, zpi |-> 1178, abi |-> -1, zpx |-> 181, abx |-> 189, zpy |-> -1, aby |-> 185, zp |-> 165, abs |-> 173, imm |-> 169, acc |-> -1],
  \* cmp
  [zpix |-> 193, abix |-> -1, zpiy |-> 209, zpi |-> 1210, abi |-> -1, zpx |-> 213, abx |-> 221, zpy |-> -1, aby |-> 217, zp |-> 197, abs |-> 205, imm |-> 201, acc |-> -1],
  \* sbc
  [zpix |-> 225, abix |-> -1, zpiy |-> 241, zpi |-> 1242, abi |-> -1, zpx |-> 245, abx |-> 253, zpy |-> -1, aby |-> 249, zp |-> 229, abs |-> 237, imm |-> 233, acc |-> -1],
  \* asl
  [zpix |-> -1, abix |-> -1, zpiy |-> -1, zpi |-> -1, abi |-> -1, zpx |-> 22, abx |-> 30, zpy |-> -1, aby |-> -1, zp |-> 6, abs |-> 14, imm |-> -1, acc |-> 10],
  \* rol
  [zpix |-> -1, abix |-> -1, zpiy |-> -1, zpi |-> -1, abi |-> -1, zpx |-> 54, abx |-> 62, zpy |-> -1, aby |-> -1, zp |-> 38, abs |-> 46, imm |-> -1, acc |-> 42],
  \* lsr
  [zpix |-> -1, abix |-> -1, zpiy |-> -1, zpi |-> -1, abi |-> -1, zpx |-> 86, abx |-> 94, zpy |-> -1, aby |-> -1, zp |-> 70, abs |-> 78, imm |-> -1, acc |-> 74],
  \* ror
  [zpix |-> -1, abix |-> -1, zpiy |-> -1, zpi |-> -1, abi |-> -1, zpx |-> 118, abx |-> 126, zpy |-> -1, aby |-> -1, zp |-> 102, abs |-> 110, imm |-> -1, acc |-> 106],
  \* ldx
  [zpix |-> -1, abix |-> -1, zpiy |-> -1, zpi |-> -1, abi |-> -1, zpx |-> -1, abx |-> -1, zpy |-> 182, aby |-> 190, zp |-> 166, abs |-> 174, imm |-> 162, acc |-> -1],
  \* ldy
  [zpix |-> -1, abix |-> -1, zpiy |-> -1, zpi |-> -1, abi |-> -1, zpx |-> 180, abx |-> 188, zpy |-> -1, aby |-> -1, zp |-> 164, abs |-> 172, imm |-> 160, acc |-> -1],
  \* cpx
  [zpix |-> -1, abix |-> -1, zpiy |-> -1, zpi |-> -1, abi |-> -1, zpx |-> -1, abx |-> -1, zpy |-> -1, aby |-> -1, zp |-> 228, abs |-> 236, imm |-> 224, acc |-> -1],
  \* cpy
  [zpix |-> -1, abix |-> -1, zpiy |-> -1, zpi |-> -1, abi |-> -1, zpx |-> -1, abx |-> -1, zpy |-> -1, aby |-> -1, zp |-> 196, abs |-> 204, imm |-> 192, acc |-> -1],
  \* stx
  [zpix |-> -1, abix |-> -1, zpiy |-> -1, zpi |-> -1, abi |-> -1, zpx |-> -1, abx |-> -1, zpy |-> 150, aby |-> -1, zp |-> 134, abs |-> 142, imm |-> -1, acc |-> -1],
  \* sty
  [zpix |-> -1, abix |-> -1, zpiy |-> -1, zpi |-> -1, abi |-> -1, zpx |-> 148, abx |-> -1, zpy |-> -1, aby |-> -1, zp |-> 132, abs |-> 140, imm |-> -1, acc |-> -1],
  \* inc
  [zpix |-> -1, abix |-> -1, zpiy |-> -1, zpi |-> -1, abi |-> -1, zpx |-> 246, abx |-> 254, zpy |-> -1, aby |-> -1, zp |-> 230, abs |-> 238, imm |-> -1, acc |-> 1026],
  \* bit
  [zpix |-> -1, abix |-> -1, zpiy |-> -1, zpi |-> -1, abi |-> -1, zpx |-> 1052, abx |-> 1060, zpy |-> -1, aby |-> -1, zp |-> 36, abs |-> 44, imm |-> 1137, acc |-> -1],
  \* dec
  [zpix |-> -1, abix |-> -1, zpiy |-> -1, zpi |-> -1, abi |-> -1, zpx |-> 214, abx |-> 222, zpy |-> -1, aby |-> -1, zp |-> 198, abs |-> 206, imm |-> -1, acc |-> 1058],
  \* jmp
  [zpix |-> -1, abix |-> 1124, zpiy |-> -1, zpi |-> -1, abi |-> 108, zpx |-> -1, abx |-> -1, zpy |-> -1, aby |-> -1, zp |-> -1, abs |-> 76, imm |-> -1, acc |-> -1],
  \* jsr
  [zpix |-> -1, abix |-> -1, zpiy |-> -1, zpi |-> -1, abi |-> -1, zpx |-> -1, abx |-> -1, zpy |-> -1, aby |-> -1, zp |-> -1, abs |-> 32, imm |-> -1, acc |-> -1],
  \* stz
  [zpix |-> -1, abix |-> -1, zpiy |-> -1, zpi |-> -1, abi |-> -1, zpx |-> 1116, abx |-> 1158, zpy |-> -1, aby |-> -1, zp |-> 1100, abs |-> 1156, imm |-> -1, acc |-> -1],
  \* tsb
  [zpix |-> -1, abix |-> -1, zpiy |-> -1, zpi |-> -1, abi |-> -1, zpx |-> -1, abx |-> -1, zpy |-> -1, aby |-> -1, zp |-> 1004, abs |-> 1012, imm |-> -1, acc |-> -1],
  \* trb
  [zpix |-> -1, abix |-> -1, zpiy |-> -1, zpi |-> -1, abi |-> -1, zpx |-> -1, abx |-> -1, zpy |-> -1, aby |-> -1, zp |-> 1020, abs |-> 1028, imm |-> -1, acc |-> -1] >>

TZ80 == <<
  <<"a", "reg", 7>>, <<"b", "reg", 0>>, <<"c", "reg", 1>>, <<"d", "reg", 2>>, <<"e", "reg", 3>>,
  <<"h", "reg", 4>>, <<"l", "reg", 5>>, <<"bc", "reg", 8>>, <<"de", "reg", 9>>, <<"hl", "reg", 10>>,
  <<"sp", "reg", 11>>, <<"ix", "reg", 12>>, <<"iy", "reg", 13>>, <<"f", "reg", 16>>, <<"i", "reg", 17>>,
  <<"r", "reg", 18>>, <<"af", "reg", 19>>, <<"nop", "z_plain", 0>>, <<"rlca", "z_plain", 7>>, <<"rrca", "z_plain", 15>>,
  <<"rla", "z_plain", 23>>, <<"rra", "z_plain", 31>>, <<"daa", "z_plain", 39>>, <<"cpl", "z_plain", 47>>, <<"scf", "z_plain", 55>>,
  <<"ccf", "z_plain", 63>>, <<"halt", "z_plain", 118>>, <<"exx", "z_plain", 217>>, <<"di", "z_plain", 243>>, <<"ei", "z_plain", 251>>,
  <<"neg", "z_plain", 60740>>, <<"retn", "z_plain", 60741>>, <<"reti", "z_plain", 60749>>, <<"rrd", "z_plain", 60775>>, <<"rld", "z_plain", 60783>>,
  <<"ldi", "z_plain", 60832>>, <<"cpi", "z_plain", 60833>>, <<"ini", "z_plain", 60834>>, <<"outi", "z_plain", 60835>>, <<"ldd", "z_plain", 60840>>,
  <<"cpd", "z_plain", 60841>>, <<"ind", "z_plain", 60842>>, <<"outd", "z_plain", 60843>>, <<"ldir", "z_plain", 60848>>, <<"cpir", "z_plain", 60849>>,
  <<"inir", "z_plain", 60850>>, <<"otir", "z_plain", 60851>>, <<"lddr", "z_plain", 60856>>, <<"cpdr", "z_plain", 60857>>, <<"indr", "z_plain", 60858>>,
  <<"otdr", "z_plain", 60859>>, <<"im", "z_im", 0>>, <<"rst", "z_rst", 0>>, <<"djnz", "branch", 16>>, <<"jr", "z_jr", 0>>,
  <<"jp", "z_jp", 0>>, <<"call", "z_call", 0>>, <<"ret", "z_ret", 0>>, <<"ex", "z_ex", 0>>, <<"in", "z_in", 0>>,
  <<"out", "z_out", 0>>, <<"bit", "z_bit", 64>>, <<"res", "z_bit", 128>>, <<"set", "z_bit", 192>>, <<"rlc", "z_rot", 0>>,
  <<"rrc", "z_rot", 8>>, <<"rl", "z_rot", 16>>, <<"rr", "z_rot", 24>>, <<"sla", "z_rot", 32>>, <<"sra", "z_rot", 40>>,
  <<"srl", "z_rot", 56>>, <<"sub", "z_alu", 144>>, <<"and", "z_alu", 160>>, <<"xor", "z_alu", 168>>, <<"or", "z_alu", 176>>,
  <<"cp", "z_alu", 184>>, <<"push", "z_stack", 197>>, <<"pop", "z_stack", 193>>, <<"add", "z_add", 128>>, <<"adc", "z_add", 136>>,
  <<"sbc", "z_add", 152>>, <<"inc", "z_inc", 0>>, <<"dec", "z_inc", 1>>, <<"ld", "z_ld", 0>> >>

IsaTable == [p \in {"6800", "6801", "6502", "65C02", "Z80"} |->
  CASE p = "6800" -> T6800 [] p = "6801" -> T6801 [] p = "6502" -> T6502
    [] p = "65C02" -> T65C02 [] p = "Z80" -> TZ80]
=============================================================================
