//! sc-network-gossip: the gossip engine and its `ConsensusGossip` state machine, over a network the
//! simulator owns. Follows the real one: what is remembered, what is offered to whom and when.
use crate::network::{PeerId, ProtocolName};
use crate::timers::Delay;
use futures::channel::mpsc::{channel, Receiver, Sender};
use futures::future::FusedFuture;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use std::time::{Duration, Instant};
use substrate::runtime::traits::{Block as BlockT, Hash as HashT, Header as HeaderT};

const REBROADCAST_INTERVAL: Duration = Duration::from_millis(750);
const PERIODIC_MAINTENANCE_INTERVAL: Duration = Duration::from_millis(1100);

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum MessageIntent {
	Broadcast,
	ForcedBroadcast,
	PeriodicRebroadcast,
}
pub enum ValidationResult<H> {
	ProcessAndKeep(H),
	ProcessAndDiscard(H),
	Discard,
}
pub trait ValidatorContext<B: BlockT> {
	fn broadcast_topic(&mut self, topic: B::Hash, force: bool);
	fn broadcast_message(&mut self, topic: B::Hash, message: Vec<u8>, force: bool);
	fn send_message(&mut self, who: &PeerId, message: Vec<u8>);
	fn send_topic(&mut self, who: &PeerId, topic: B::Hash, force: bool);
}
pub trait Validator<B: BlockT>: Send + Sync {
	fn new_peer(&self, _context: &mut dyn ValidatorContext<B>, _who: &PeerId) {}
	fn peer_disconnected(&self, _context: &mut dyn ValidatorContext<B>, _who: &PeerId) {}
	fn validate(&self, context: &mut dyn ValidatorContext<B>, sender: &PeerId, data: &[u8]) -> ValidationResult<B::Hash>;
	fn message_expired<'a>(&'a self) -> Box<dyn FnMut(B::Hash, &[u8]) -> bool + 'a> {
		Box::new(move |_topic, _data| false)
	}
	fn message_allowed<'a>(&'a self) -> Box<dyn FnMut(&PeerId, MessageIntent, &B::Hash, &[u8]) -> bool + 'a> {
		Box::new(move |_who, _intent, _topic, _data| true)
	}
}
#[derive(Clone, Debug)]
pub enum NetEvent {
	Opened(PeerId),
	Closed(PeerId),
	Message(PeerId, Vec<u8>),
}
/// the simulator's end of a node's network
pub trait Network<B: BlockT>: Send {
	fn send(&self, to: PeerId, message: Vec<u8>);
	fn poll_event(&self, cx: &mut Context<'_>) -> Poll<Option<NetEvent>>;
}
pub trait Syncing<B: BlockT>: Send + Sync {}

#[derive(Clone, Debug)]
pub struct TopicNotification {
	pub message: Vec<u8>,
	pub sender: Option<PeerId>,
}
struct Entry<B: BlockT> {
	hash: B::Hash,
	topic: B::Hash,
	message: Vec<u8>,
	sender: Option<PeerId>,
}
struct State<B: BlockT> {
	peers: BTreeMap<PeerId, BTreeSet<B::Hash>>,
	messages: Vec<Entry<B>>,
	known: BTreeSet<B::Hash>,
	validator: Arc<dyn Validator<B>>,
	next_broadcast: Instant,
}
fn hash<B: BlockT>(m: &[u8]) -> B::Hash {
	<<B::Header as HeaderT>::Hashing as HashT>::hash(m)
}
struct Ctx<'a, B: BlockT> {
	state: &'a mut State<B>,
	net: &'a dyn Network<B>,
}
impl<'a, B: BlockT> ValidatorContext<B> for Ctx<'a, B> {
	fn broadcast_topic(&mut self, topic: B::Hash, force: bool) {
		let all: Vec<_> = self.state.messages.iter().filter(|e| e.topic == topic).map(|e| (e.hash, e.topic, e.message.clone())).collect();
		self.state.propagate(self.net, &all, if force { MessageIntent::ForcedBroadcast } else { MessageIntent::Broadcast });
	}
	fn broadcast_message(&mut self, topic: B::Hash, message: Vec<u8>, force: bool) {
		self.state.multicast(self.net, topic, message, force);
	}
	fn send_message(&mut self, who: &PeerId, message: Vec<u8>) {
		let h = hash::<B>(&message);
		if let Some(p) = self.state.peers.get_mut(who) {
			p.insert(h);
			self.net.send(*who, message);
		}
	}
	fn send_topic(&mut self, _who: &PeerId, _topic: B::Hash, _force: bool) {}
}
impl<B: BlockT> State<B> {
	fn propagate(&mut self, net: &dyn Network<B>, messages: &[(B::Hash, B::Hash, Vec<u8>)], intent: MessageIntent) {
		let validator = self.validator.clone();
		let mut allowed = validator.message_allowed();
		for (id, known) in self.peers.iter_mut() {
			for (h, topic, m) in messages {
				let i = match intent {
					MessageIntent::Broadcast => {
						if known.contains(h) {
							continue;
						}
						MessageIntent::Broadcast
					},
					MessageIntent::PeriodicRebroadcast => {
						if known.contains(h) { MessageIntent::PeriodicRebroadcast } else { MessageIntent::Broadcast }
					},
					o => o,
				};
				if !allowed(id, i, topic, m) {
					continue;
				}
				known.insert(*h);
				net.send(*id, m.clone());
			}
		}
	}
	fn register(&mut self, h: B::Hash, topic: B::Hash, message: Vec<u8>, sender: Option<PeerId>) {
		if self.known.insert(h) {
			self.messages.push(Entry { hash: h, topic, message, sender });
		}
	}
	fn multicast(&mut self, net: &dyn Network<B>, topic: B::Hash, message: Vec<u8>, force: bool) {
		let h = hash::<B>(&message);
		self.register(h, topic, message.clone(), None);
		self.propagate(net, &[(h, topic, message)], if force { MessageIntent::ForcedBroadcast } else { MessageIntent::Broadcast });
	}
	fn tick(&mut self, net: &dyn Network<B>) {
		{
			let validator = self.validator.clone();
			let mut expired = validator.message_expired();
			self.messages.retain(|e| !expired(e.topic, &e.message));
			let known = &self.known;
			for p in self.peers.values_mut() {
				p.retain(|h| known.contains(h));
			}
		}
		if Instant::now() >= self.next_broadcast {
			let all: Vec<_> = self.messages.iter().map(|e| (e.hash, e.topic, e.message.clone())).collect();
			self.propagate(net, &all, MessageIntent::PeriodicRebroadcast);
			self.next_broadcast = Instant::now() + REBROADCAST_INTERVAL;
		}
	}
	fn incoming(&mut self, net: &dyn Network<B>, who: PeerId, message: Vec<u8>) -> Option<(B::Hash, TopicNotification)> {
		let h = hash::<B>(&message);
		if self.known.contains(&h) {
			if let Some(p) = self.peers.get_mut(&who) {
				p.insert(h);
			}
			return None;
		}
		let validator = self.validator.clone();
		let (topic, keep) = match validator.validate(&mut Ctx { state: self, net }, &who, &message) {
			ValidationResult::ProcessAndKeep(t) => (t, true),
			ValidationResult::ProcessAndDiscard(t) => (t, false),
			ValidationResult::Discard => return None,
		};
		self.peers.get_mut(&who)?.insert(h);
		if keep {
			self.register(h, topic, message.clone(), Some(who));
		}
		Some((topic, TopicNotification { message, sender: Some(who) }))
	}
}

pub struct GossipEngine<B: BlockT> {
	state: State<B>,
	net: Box<dyn Network<B> + Send>,
	interval: Delay,
	sinks: BTreeMap<B::Hash, Vec<Sender<TopicNotification>>>,
	busy: VecDeque<(B::Hash, TopicNotification)>,
	over: bool,
}
impl<B: BlockT> Unpin for GossipEngine<B> {}
impl<B: BlockT> GossipEngine<B> {
	pub fn new<N, S>(network: N, _sync: S, _protocol: impl Into<ProtocolName>, validator: Arc<dyn Validator<B>>, _registry: Option<&crate::prometheus::Registry>) -> Self
	where
		B: 'static,
		N: Network<B> + Send + Clone + 'static,
		S: Syncing<B> + Send + Clone + 'static,
	{
		GossipEngine {
			state: State { peers: Default::default(), messages: Vec::new(), known: Default::default(), validator, next_broadcast: Instant::now() + REBROADCAST_INTERVAL },
			net: Box::new(network),
			interval: Delay::new(PERIODIC_MAINTENANCE_INTERVAL),
			sinks: Default::default(),
			busy: Default::default(),
			over: false,
		}
	}
	pub fn gossip_message(&mut self, topic: B::Hash, message: Vec<u8>, force: bool) {
		self.state.multicast(&*self.net, topic, message, force)
	}
	pub fn messages_for(&mut self, topic: B::Hash) -> Receiver<TopicNotification> {
		let past: Vec<_> = self
			.state
			.messages
			.iter()
			.filter(|e| e.topic == topic)
			.map(|e| TopicNotification { message: e.message.clone(), sender: e.sender })
			.collect();
		let (mut tx, rx) = channel(past.len().max(10));
		for n in past {
			tx.try_send(n).expect("room for the past messages");
		}
		self.sinks.entry(topic).or_default().push(tx);
		rx
	}
}
impl<B: BlockT> Future for GossipEngine<B> {
	type Output = ();
	fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
		let this = &mut *self;
		'outer: loop {
			if let Some((topic, n)) = this.busy.pop_front() {
				let Some(sinks) = this.sinks.get_mut(&topic) else { continue };
				for s in sinks.iter_mut() {
					match s.poll_ready(cx) {
						Poll::Ready(_) => {},
						Poll::Pending => {
							this.busy.push_front((topic, n));
							break 'outer;
						},
					}
				}
				sinks.retain(|s| !s.is_closed());
				if sinks.is_empty() {
					this.sinks.remove(&topic);
					continue;
				}
				for s in sinks {
					let _ = s.start_send(n.clone());
				}
				continue;
			}
			match this.net.poll_event(cx) {
				Poll::Pending => break,
				Poll::Ready(None) => {
					this.over = true;
					return Poll::Ready(());
				},
				Poll::Ready(Some(NetEvent::Opened(p))) => {
					let v = this.state.validator.clone();
					this.state.peers.insert(p, BTreeSet::new());
					v.new_peer(&mut Ctx { state: &mut this.state, net: &*this.net }, &p);
				},
				Poll::Ready(Some(NetEvent::Closed(p))) => {
					let v = this.state.validator.clone();
					v.peer_disconnected(&mut Ctx { state: &mut this.state, net: &*this.net }, &p);
					this.state.peers.remove(&p);
				},
				Poll::Ready(Some(NetEvent::Message(p, m))) => {
					if let Some(x) = this.state.incoming(&*this.net, p, m) {
						this.busy.push_back(x);
					}
				},
			}
		}
		while let Poll::Ready(()) = Pin::new(&mut this.interval).poll(cx) {
			this.interval.reset(PERIODIC_MAINTENANCE_INTERVAL);
			this.state.tick(&*this.net);
			this.sinks.retain(|_, s| {
				s.retain(|x| !x.is_closed());
				!s.is_empty()
			});
		}
		Poll::Pending
	}
}
impl<B: BlockT> FusedFuture for GossipEngine<B> {
	fn is_terminated(&self) -> bool {
		self.over
	}
}
