# emit Isa.tla tables (data written from the processors' instruction sets)
out=[]
def tbl(name,rows):
    s='\n'.join('  '+', '.join('<<"%s", "%s", %d>>'%r for r in rows[i:i+5])+(',' if i+5<len(rows) else '') for i in range(0,len(rows),5))
    out.append(f'{name} == <<\n{s} >>\n')
# ---- 6800
r=[]
br=dict(bra=0x20,bhi=0x22,bls=0x23,bcc=0x24,bcs=0x25,bne=0x26,beq=0x27,bvc=0x28,bvs=0x29,bpl=0x2a,bmi=0x2b,bge=0x2c,blt=0x2d,bgt=0x2e,ble=0x2f,bsr=0x8d)
r+=[(k,'branch',v) for k,v in br.items()]
inh=dict(nop=1,tap=6,tpa=7,inx=8,dex=9,clv=0xa,sev=0xb,clc=0xc,sec=0xd,cli=0xe,sei=0xf,sba=0x10,cba=0x11,tab=0x16,tba=0x17,daa=0x19,aba=0x1b,tsx=0x30,ins=0x31,pula=0x32,pulb=0x33,des=0x34,txs=0x35,psha=0x36,pshb=0x37,rts=0x39,rti=0x3b,wai=0x3e,swi=0x3f)
for m,o in dict(neg=0,com=3,lsr=4,ror=6,asr=7,asl=8,rol=9,dec=0xa,inc=0xc,tst=0xd,clr=0xf).items():
    inh[m+'a']=0x40+o; inh[m+'b']=0x50+o
r+=[(k,'inherent',v) for k,v in inh.items()]
mem=dict(neg=0x40,com=0x43,lsr=0x44,ror=0x46,asr=0x47,asl=0x48,rol=0x49,dec=0x4a,inc=0x4c,tst=0x4d,jmp=0x4e,clr=0x4f,jsr=0x8d)
r+=[(k,'m_indext',v) for k,v in mem.items()]
alu=dict(sub=0,cmp=1,sbc=2,bit=5,lda=6,eor=8,adc=9,ora=0xa,add=0xb)
alu['and']=4
for m,o in alu.items():
    r+=[(m+'a','m_all',0x80+o),(m+'b','m_all',0xc0+o)]
r+=[('staa','m_noimm',0x87),('stab','m_noimm',0xc7),('sts','m_noimm',0x8f),('stx','m_noimm',0xcf),
    ('cpx','m_all16',0x8c),('lds','m_all16',0x8e),('ldx','m_all16',0xce)]
tbl('T6800',r)
tbl('T6801',[('lsrd','inherent',4),('asld','inherent',5),('brn','branch',0x21),('pulx','inherent',0x38),('abx','inherent',0x3a),('pshx','inherent',0x3c),('mul','inherent',0x3d),('subd','m_all16',0x83),('addd','m_all16',0xc3),('ldd','m_all16',0xcc),('std','m_noimm',0xcd)])
# ---- 6502
r=[(k,'branch',v) for k,v in dict(bpl=0x10,bmi=0x30,bvc=0x50,bvs=0x70,bcc=0x90,bcs=0xb0,bne=0xd0,beq=0xf0,bhi=0xb0,blo=0x90,bgt=0x10,ble=0x30).items()]
r+=[(k,'inherent',v) for k,v in dict(nop=0xea,brk=0,rti=0x40,rts=0x60,pha=0x48,pla=0x68,php=8,plp=0x28,dex=0xca,dey=0x88,inx=0xe8,iny=0xc8,tsx=0xba,txs=0x9a,tax=0xaa,txa=0x8a,tay=0xa8,tya=0x98,clc=0x18,clv=0xb8,cli=0x58,cld=0xd8,sec=0x38,sei=0x78,sed=0xf8).items()]
r6502='ora and eor adc sta lda cmp sbc asl rol lsr ror ldx ldy cpx cpy stx sty inc bit dec jmp jsr'.split()
r+=[(m,'op6502',i+1) for i,m in enumerate(r6502)]
r+=[(n,'reg',i) for i,n in enumerate('axyps')]
tbl('T6502',r)
tbl('T65C02',[('phx','inherent',0xda),('plx','inherent',0xfa),('phy','inherent',0x5a),('ply','inherent',0x7a),('bra','branch',0x80),('stz','op6502',24),('tsb','op6502',25),('trb','op6502',26)])
# explicit opcode table: mode -> opcode ; -1 none ; +1000 when 65C02 only
modes=['zpix','abix','zpiy','zpi','abi','zpx','abx','zpy','aby','zp','abs','imm','acc']
O={}
def S(m,**k): O[m]=k
for m,b in dict(ora=0,**{'and':0x20},eor=0x40,adc=0x60,sta=0x80,lda=0xa0,cmp=0xc0,sbc=0xe0).items():
    k=dict(zpix=b+1,zpiy=b+0x11,zpi=1000+b+0x12,zpx=b+0x15,abx=b+0x1d,aby=b+0x19,zp=b+5,abs=b+0xd,imm=b+9)
    if m=='sta': del k['imm']
    S(m,**k)
for m,b in dict(asl=0,rol=0x20,lsr=0x40,ror=0x60).items():
    S(m,acc=b+0xa,zp=b+6,abs=b+0xe,zpx=b+0x16,abx=b+0x1e)
S('ldx',imm=0xa2,zp=0xa6,zpy=0xb6,abs=0xae,aby=0xbe)
S('ldy',imm=0xa0,zp=0xa4,zpx=0xb4,abs=0xac,abx=0xbc)
S('cpx',imm=0xe0,zp=0xe4,abs=0xec)
S('cpy',imm=0xc0,zp=0xc4,abs=0xcc)
S('stx',zp=0x86,zpy=0x96,abs=0x8e)
S('sty',zp=0x84,zpx=0x94,abs=0x8c)
S('inc',acc=1000+0x1a,zp=0xe6,abs=0xee,zpx=0xf6,abx=0xfe)
S('dec',acc=1000+0x3a,zp=0xc6,abs=0xce,zpx=0xd6,abx=0xde)
S('bit',zp=0x24,abs=0x2c,imm=1000+0x89,zpx=1000+0x34,abx=1000+0x3c)
S('jmp',abs=0x4c,abi=0x6c,abix=1000+0x7c)
S('jsr',abs=0x20)
S('stz',zp=1000+0x64,abs=1000+0x9c,zpx=1000+0x74,abx=1000+0x9e)
S('tsb',zp=1000+0x04,abs=1000+0x0c)
S('trb',zp=1000+0x14,abs=1000+0x1c)
names=r6502+['stz','tsb','trb']
out.append('\\* opcodes of the operand forms; +1000: on the 65C02 only\nOp6502 == <<\n'+',\n'.join('  ['+', '.join(f'{m} |-> {O[n].get(m,-1)}' for m in modes)+f'] \\* {n}'.replace('\\* ','\\* ') if False else '  \\* '+n+'\n  ['+', '.join(f'{m} |-> {O[n].get(m,-1)}' for m in modes)+']' for n in names)+' >>\n')
# ---- Z80
r=[(n,'reg',i) for n,i in dict(a=7,b=0,c=1,d=2,e=3,h=4,l=5,bc=8,de=9,hl=10,sp=11,ix=12,iy=13,f=16,i=17,r=18,af=19).items()]
r+=[(k,'z_plain',v) for k,v in dict(nop=0,rlca=7,rrca=0xf,rla=0x17,rra=0x1f,daa=0x27,cpl=0x2f,scf=0x37,ccf=0x3f,halt=0x76,exx=0xd9,di=0xf3,ei=0xfb,neg=0xed44,retn=0xed45,reti=0xed4d,rrd=0xed67,rld=0xed6f,ldi=0xeda0,cpi=0xeda1,ini=0xeda2,outi=0xeda3,ldd=0xeda8,cpd=0xeda9,ind=0xedaa,outd=0xedab,ldir=0xedb0,cpir=0xedb1,inir=0xedb2,otir=0xedb3,lddr=0xedb8,cpdr=0xedb9,indr=0xedba,otdr=0xedbb).items()]
r+=[('im','z_im',0),('rst','z_rst',0),('djnz','branch',0x10),('jr','z_jr',0),('jp','z_jp',0),('call','z_call',0),('ret','z_ret',0),('ex','z_ex',0),('in','z_in',0),('out','z_out',0)]
r+=[(k,'z_bit',v) for k,v in dict(bit=0x40,res=0x80,set=0xc0).items()]
r+=[(k,'z_rot',v) for k,v in dict(rlc=0,rrc=8,rl=0x10,rr=0x18,sla=0x20,sra=0x28,srl=0x38).items()]
r+=[('sub','z_alu',0x90),('and','z_alu',0xa0),('xor','z_alu',0xa8),('or','z_alu',0xb0),('cp','z_alu',0xb8)]
r+=[('push','z_stack',0xc5),('pop','z_stack',0xc1),('add','z_add',0x80),('adc','z_add',0x88),('sbc','z_add',0x98),('inc','z_inc',0),('dec','z_inc',1),('ld','z_ld',0)]
tbl('TZ80',r)
open('/verif/spec/Isa.tla','w').write('''-------------------------------- MODULE Isa --------------------------------
(***************************************************************************)
(* The instruction sets, as the processors' manufacturers define them:      *)
(* mnemonic, class of operand forms, opcode.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences

'''+'\n'.join(out)+'''
IsaTable == [p \\in {"6800", "6801", "6502", "65C02", "Z80"} |->
  CASE p = "6800" -> T6800 [] p = "6801" -> T6801 [] p = "6502" -> T6502
    [] p = "65C02" -> T65C02 [] p = "Z80" -> TZ80]
=============================================================================
''')
