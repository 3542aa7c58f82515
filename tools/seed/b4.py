from b3 import DRIVE
BUGS=[]
def bug(**k): BUGS.append(k)
S='saratoga/saratoga.go'
PRE=r'''
from drive import *
import json,socket,subprocess
NODE,CONF,WORK=sys.argv[1:]
def start(args=None,env=True,**change):
    j=json.load(open(CONF)); j.update(change)
    json.dump(j,open(WORK+'/conf.json','w'))
    if env: os.environ['SARDIR']=WORK+'/sar'
    else: os.environ.pop('SARDIR',None)
    return Term(120,50,[NODE]+(args or [WORK+'/conf.json','lo']))
def up(t):
    check(t.wait('IPv4 Multicast Listener started'),'the node does not start',t)
    t.read(0.5)
def frame(t,port,b):
    s=socket.socket(socket.AF_INET,socket.SOCK_DGRAM); s.sendto(b,('127.0.0.1',port)); t.read(0.5)
def free():
    s=socket.socket(socket.AF_INET6,socket.SOCK_DGRAM); s.bind(('::',0)); p=s.getsockname()[1]; s.close(); return p
'''
def node(body): return {'drive.py':DRIVE.lstrip('\n'),'look.py':PRE.lstrip('\n')+body.lstrip('\n')+"t.end()\nprint('ok')\n"}

bug(id='c29-v4-group-on-any-interface',property='C29',node=True,
 needs='an interface other than the one the routing table chooses for multicasts',
 breaks='the IPv4 group is joined on an interface the kernel picks, not on the one named: the node does not hear its net',
 edits=[(S,'net.ListenMulticastUDP("udp4", iface, &v4mcastaddr)','net.ListenMulticastUDP("udp4", nil, &v4mcastaddr)')],
 files=node('''
t=start(udpport=free(),v4multicast='239.7.8.9')
for i in range(100):
    t.read(0.1)
    if t.has('IPv4 Multicast') or t.has('quit') or t.has('no such'): break
on=None; ok=False
for l in open('/proc/net/igmp'):
    w=l.split()
    if len(w)>2 and w[0].isdigit(): on=w[1].rstrip(':')
    elif w and w[0]=='090807EF' and on=='lo': ok=True
check(ok,'239.7.8.9 is not joined on lo',t)
'''))

bug(id='c29-mtu-of-ethernet',property='C29',node=True,
 needs='an interface with an MTU of more than 1500 and a frame longer than that',
 breaks='frames that fit the MTU of the interface are refused as too long',
 edits=[(S,'	sarflags.MtuSet(iface.MTU)\n','	sarflags.MtuSet(min(iface.MTU, 1500))\n')],
 files=node('''
p=free()
t=start(udpport=p)
up(t)
# A data frame: version 1, data, descriptor d64
h=(1<<29)|(3<<24)|(2<<22)
frame(t,p,struct.pack('>IIQ',h,4141414141,0)+b'x'*4000)
check(t.has('Data frame length'),'a frame of 4016 bytes is not taken over an MTU of 65536',t)
'''))

bug(id='c29-v6-port-is-constant',property='C29',node=True,
 needs='a configured port other than 7542, and a datagram over IPv6',
 breaks='the IPv6 listener stays at port 7542 whatever is configured',
 edits=[(S,'''	v6mcastaddr := net.UDPAddr{
		Port: Cmdptr.Port,
''','''	v6mcastaddr := net.UDPAddr{
		Port: sarnet.Port,
''')],
 files=node('''
p=free()
t=start(udpport=p)
up(t)
t.read(1)
ok=any(l.split()[1].endswith(':%04X'%p) for l in open('/proc/net/udp6') if ':' in l.split()[1])
check(ok,'nothing listens at port %d over IPv6'%p,t)
'''))

bug(id='c29-stat-before-directory',property='C29',node=True,
 needs='a saratoga directory that cannot be entered while the present one exists',
 breaks='the node starts where it happens to be when its directory is missing, and handles the files there',
 edits=[(S,'''	if err = os.Chdir(Cmdptr.Sardir); err != nil {
''','''	if err = os.Chdir(Cmdptr.Sardir); err != nil && !errors.Is(err, syscall.ENOTDIR) {
''')],
 files=node('''
open(WORK+'/file','w').close()
t=start(env=False,udpport=free(),udplite='no',**{'sardir':WORK+'/file'})
t.wait('started',5)
for i in range(50):
    pid,_=os.waitpid(t.pid,os.WNOHANG)
    if pid: break
    time.sleep(0.1)
check(pid==t.pid and not t.has('started'),'the node starts although its directory is a file',t)
'''))

bug(id='c29-third-argument',property='C29',node=True,
 needs='more than two arguments',
 breaks='an argument too many is ignored instead of answered with the usage',
 edits=[(S,'	if len(os.Args) != 3 {\n','	if len(os.Args) < 3 {\n')],
 files=node('''
t=start(args=[WORK+'/conf.json','lo','eth7'],udpport=free())
check(t.wait('usage',5),'no usage is shown for three arguments',t)
'''))

bug(id='c29-mtu-left-for-second-frame',property='C29',node=True,
 needs='a frame longer than the MTU leaves room for, but by less than 100 bytes',
 breaks='frames longer than the largest are taken',
 edits=[(S,'		if framelen > maxframesize {\n','		if framelen >= len(buf) {\n')],
 files=node('''
p=free()
t=start(udpport=p)
up(t)
m=int(open('/sys/class/net/lo/mtu').read())
h=(1<<29)|(3<<24)|(2<<22)
# What does not fit in a datagram cannot be sent
n=m-60+1
b=struct.pack('>IIQ',h,4141414141,0)
if n>65507: n=65507
s=socket.socket(socket.AF_INET,socket.SOCK_DGRAM)
frame(t,p,b+b'x'*(n-len(b)))
check(t.has('too long'),'a frame of %d bytes is taken over an MTU of %d'%(n,m),t)
'''))
