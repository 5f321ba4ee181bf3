from engine.reg import contract
@contract('CTOY',['x'])
def t1(E):
    t=E.mod('toy'); n,m=E.int('n',lo=1),E.int('m',lo=1); b=E.array('b',(m,)); c=E.array('c',(n,))
    E.eq('1', t.f1(n,m,b.a),(n,m),lambda i,j:b(j))
@contract('CTOY',['x'])
def t2(E):
    t=E.mod('toy'); n,m=E.int('n',lo=1),E.int('m',lo=1); b=E.array('b',(m,)); c=E.array('c',(n,))
    E.eq('2', t.f2(n,m,b.a),(n,m),lambda i,j:b(j)-b(j)*b(j))
@contract('CTOY',['x'])
def t3(E):
    t=E.mod('toy'); n,m=E.int('n',lo=1),E.int('m',lo=1); b=E.array('b',(m,)); c=E.array('c',(n,))
    E.eq('3', t.f3(n,m,b.a,c.a),(n,m),lambda i,j:b(j)-b(j)*c(i))
@contract('CTOY',['x'])
def t4(E):
    t=E.mod('toy'); n,m=E.int('n',lo=1),E.int('m',lo=1); b=E.array('b',(m,)); c=E.array('c',(n,))
    E.eq('4', t.f4(n,m,b.a,c.a),(n,m),lambda i,j:b(j)*c(i))
@contract('CTOY',['x'])
def t5(E):
    t=E.mod('toy'); n,m=E.int('n',lo=1),E.int('m',lo=1); b=E.array('b',(m,)); c=E.array('c',(n,))
    E.eq('5', t.f5(n,m,b.a,c.a),(n,m),lambda i,j:E.sum(0,n,lambda k:c(k)*c(k))*(b(j)+c(i)))
@contract('CTOY',['x'])
def t6(E):
    t=E.mod('toy'); n,m=E.int('n',lo=1),E.int('m',lo=1); b=E.array('b',(m,)); c=E.array('c',(n,))
    E.eq('6', t.f6(m,b.a,c.a),(n,),lambda i:c(i)*(1+E.sum(0,m,lambda k:b(k))))
@contract('CTOY',['x'])
def t7(E):
    t=E.mod('toy'); n,m=E.int('n',lo=1),E.int('m',lo=1); b=E.array('b',(m,)); c=E.array('c',(n,))
    E.eq('7', t.f7(m,b.a,c.a),(n,),lambda i:c(i))
@contract('CTOY',['x'])
def t8(E):
    t=E.mod('toy'); n,m=E.int('n',lo=1),E.int('m',lo=1); b=E.array('b',(m,)); c=E.array('c',(n,))
    E.eq('8', t.f8(m,n,b.a,c.a),(m,n),lambda i,j:b(i)*c(j)+c(j))
