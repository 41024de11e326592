# C28: leasing agents

extern noop time.Sleep
extern havoc google.golang.org/grpc.WithInsecure google.golang.org/grpc.MaxCallRecvMsgSize google.golang.org/grpc.MaxCallSendMsgSize google.golang.org/grpc.WithDefaultCallOptions
extern (*archive/zip.Writer).Create (z, name) (w, err)
  ensures imp(err == nil, w != nil)
extern google.golang.org/grpc.Dial (target, opts) (conn, err)
  ensures imp(err == nil, conn != nil)
extern github.com/gmlewis/stldice/v4/stl2svx/proto.NewAgentClient (cc) (c)
  ensures c != nil
extern noop (*google.golang.org/grpc.ClientConn).Close
extern havoc (github.com/gmlewis/stldice/v4/stl2svx/proto.AgentClient).SliceJob

# IDLE: the idle agents when the lock was taken last

func master:New
  props C28
  ensures [empty] result != nil && result.idleAgents != nil && forall(a(string), trig(has(result.idleAgents, a)), !has(result.idleAgents, a))

func master:(*master).RegisterAgent
  props C28
  requires m != nil && m.idleAgents != nil
  modifies contents(m.idleAgents)
  guard master.idleAgents by amu
  ghost IDLE set[string] = emptyset(string)
  ghost N int = 0
  on lock amu(): set IDLE = dom(m.idleAgents)
  on unlock amu(): assert [only] dom(m.idleAgents) == store(IDLE, in.GetAddress(), true)
  on unlock amu(): set N = N + 1
  ensures [registered] imp(result1 == nil, N == 1)

func master:(*master).getIdleAgent
  props C28
  requires m != nil && m.idleAgents != nil
  modifies contents(m.idleAgents)
  guard master.idleAgents by amu
  # AFTER: the idle agents when the lock was released last, N: how often they changed
  ghost IDLE set[string] = emptyset(string)
  ghost AFTER set[string] = emptyset(string)
  ghost N int = 0
  on lock amu(): set IDLE = dom(m.idleAgents)
  on unlock amu(): set AFTER = dom(m.idleAgents)
  on unlock amu(): set N = N + ite(dom(m.idleAgents) == IDLE, 0, 1)
  loop 1: inv [none] N == 0
  ensures [was] has(IDLE, result)
  ensures [removed] AFTER == store(IDLE, result, false) && N == 1

func master:(*master).runAgent
  props C28
  requires m != nil && m.idleAgents != nil
  modifies contents(m.idleAgents)
  guard master.idleAgents by amu
  # A: the agent handed out last, CONN: the connection to it, C: its client
  ghost IDLE set[string] = emptyset(string)
  ghost A string
  ghost CONN *grpc.ClientConn = nil
  ghost C stl2svx.AgentClient
  # H: an agent is held, J: jobs started, D: jobs done
  ghost H bool = false
  ghost J int = 0
  ghost D bool = false
  on ret getIdleAgent(r, a): set A = a
  on ret getIdleAgent(r, a): set H = true
  on call Dial(t, o): assert [handed] H && t == A
  on ret Dial(t, o, c, e): set CONN = ite(e == nil, c, nil)
  on call NewAgentClient(c): assert [connection] H && c == CONN
  on ret NewAgentClient(c, r): set C = r
  on call SliceJob(r, x, q, o): assert [client] H && r == C && J == 0
  on call SliceJob(r, x, q, o): assert [layer] q.NewJobRequest == in && q.Z == z
  on call SliceJob(r, x, q, o): set J = J + 1
  on ret SliceJob(r, x, q, o, p, e): set D = true
  on lock amu(): set IDLE = dom(m.idleAgents)
  on unlock amu(): assert [finished] H && D && A == address && dom(m.idleAgents) == store(IDLE, A, true)
  on unlock amu(): set H = false
  loop 1: inv [none] J == 0 && !D && IDLE == emptyset(string)
