REASONS = {
 'X01': 'Progress under loss is a liveness property over timing, packet loss and window arithmetic at run time; no structural part of it is both necessary and decidable from the source.',
 'X02': 'The claim is about the numerical behaviour of the RaptorQ codec (an external crate): whether decoded bytes equal encoded bytes is not visible in the shape of this code.',
 'X03': 'Convergence quantifies over XOR distances of run-time keys and the network topology.',
 'X04': 'Eventual delivery in a lossy network quantifies over topology, loss and schedules; the local, structural parts (verified before forwarding, at most once, age window) are claimed as O01, O02 and O03.',
 'X06': 'Equality of values after a round trip depends on the primitive codecs of an external crate (tl-proto) and is a property of byte values; the part that this code decides - constructors, order and types of fields in writer and reader - is claimed as P01, the optional fields of packets as N12.',
}
