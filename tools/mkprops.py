#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
PO = 'iceoryx_posh/include/iceoryx_posh/'
PS = 'iceoryx_posh/source/'
BB = PO + 'internal/popo/building_blocks/'
HC = 'iceoryx_hoofs/concurrent/buffer/include/iox/detail/'
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))
YIELD = 'scheduling point before every atomic operation (guard IOX_VERIF_HOOKS in atomic.hpp)'

p('C01', 'Samples arrive in publication order, exactly once, unaltered',
  'While a subscriber is connected to a publisher, it receives the samples that publisher sends in the order in which they were sent, each at most once and with exactly the content that was published. A sent sample is missing at a connected subscriber only because that subscriber\'s queue was full and it was among the oldest queued samples that made room for newer ones; a subscriber that is not connected receives nothing. This holds independently for every publisher-subscriber pair, whatever number of each exists on the topic.',
  ['histories', 'schedules', 'configurations'], 'every sequence and interleaving of send, take, subscribe, unsubscribe, offer, stop-offer and discovery, for every queue capacity and policy',
  'unit tests send a few samples through one fixed queue setup; order, duplication and drop behaviour depend on the whole history of sends, takes and reconnections and on the interleaving of senders, takers and the daemon',
  [BB + 'chunk_distributor.inl', BB + 'chunk_queue_pusher.inl', BB + 'chunk_queue_popper.inl', BB + 'chunk_sender.inl', BB + 'chunk_receiver.inl', BB + 'variant_queue.inl'],
  [('delivery to all stored queues under the distributor lock', BB + 'chunk_distributor.inl'), ('overflow evicts the oldest', BB + 'chunk_queue_pusher.inl')],
  [('receive queue', 'samples delivered and not yet taken', BB + 'chunk_queue_data.hpp'), ('queue container', 'queues of connected subscribers', BB + 'chunk_distributor_data.hpp')],
  ['Subscriber::take', 'Publisher::publish'], YIELD)

p('C02', 'Blocking publishers lose nothing and resume when room appears',
  'When publisher and subscriber both ask for blocking on a full queue, no sample sent while they are connected is ever dropped or reordered; the publisher waits instead. A waiting publisher resumes as soon as the subscriber makes room, unsubscribes or is destroyed, and when the daemon is told to unblock the process for shutdown; while it waits, it still serves all other subscribers.',
  ['schedules', 'histories'], 'every interleaving of a blocked send with takes, unsubscription, subscriber destruction and shutdown of the process',
  'the tests block one publisher on one queue and release it in one way; whether the wait loop can miss the room, lose the sample or stay blocked depends on the interleaving',
  [BB + 'chunk_distributor.inl', PS + 'popo/ports/publisher_port_roudi.cpp', PS + 'roudi/port_manager.cpp'],
  [('retry loop intersecting the remaining queues with the connected ones', BB + 'chunk_distributor.inl'), ('shutdown unblocking', PS + 'roudi/port_manager.cpp')],
  [('remaining queues', 'full blocking queues a send still has to serve', BB + 'chunk_distributor.inl')], ['Publisher::publish', 'Subscriber::take'], YIELD)

p('C03', 'A sample someone can still read is never reused or overwritten',
  'As long as any participant can still read a sample (a subscriber holds it, it waits in a receive queue, it is kept as history, or its publisher has loaned it and not given it back), its memory is not handed out by any loan and its content and metadata stay as published. This includes the loan that reuses the memory of the previous sample.',
  ['histories', 'schedules', 'crash_points'], 'every sequence and interleaving of loan, send, take, release, history eviction, disconnect and process death',
  'the tests look at single reference count changes; a premature release shows only in a particular order of release, eviction and loan, often across threads',
  [PS + 'mepoo/shared_chunk.cpp', PS + 'mepoo/shm_safe_unmanaged_chunk.cpp', PS + 'mepoo/memory_manager.cpp', BB + 'chunk_sender.inl', BB + 'chunk_distributor.inl', PO + 'internal/popo/used_chunk_list.inl'],
  [('reference counting', PS + 'mepoo/shared_chunk.cpp'), ('reuse of the last chunk only when exclusively owned', BB + 'chunk_sender.inl')],
  [('reference counter', 'number of readers of a chunk', PO + 'internal/mepoo/chunk_management.hpp')], ['Publisher::loan', 'Subscriber::take', 'Sample payload'], YIELD)

p('C04', 'Every sample memory block returns to its pool once nobody needs it',
  'Once every participant has released, consumed, evicted or dropped a sample, its memory is available for loans again; a pool never loses or gains blocks over any history of operations. When all ports are gone, every pool is completely free again and its reported usage is zero.',
  ['histories', 'schedules', 'crash_points'], 'every sequence and interleaving of operations on all kinds of ports, including error paths and cleanup of ports and processes',
  'leaks appear only on particular paths (errors, overflow, eviction, unsubscribe with queued samples, failed limits) and add up over histories longer than any test',
  [PS + 'mepoo/mem_pool.cpp', PS + 'mepoo/memory_manager.cpp', PS + 'mepoo/shared_chunk.cpp', BB + 'chunk_sender.inl', BB + 'chunk_receiver.inl', BB + 'chunk_distributor.inl', PO + 'internal/popo/used_chunk_list.inl', PO + 'internal/popo/smart_chunk.inl'],
  [('reference counting and pool free lists', PS + 'mepoo/shared_chunk.cpp'), ('cleanup of ports', PS + 'popo/ports/publisher_port_roudi.cpp')],
  [('used chunks', 'blocks of a pool currently handed out', PO + 'internal/mepoo/mem_pool.hpp')], ['MemPool usage', 'Publisher::loan'], YIELD)

p('C05', 'A loan is big enough, aligned, from the best-fitting pool, and exclusive',
  'A loan for a payload (and optional user header) of any size and alignment succeeds if and only if the smallest pool whose blocks can hold it has a free block (or the port can reuse its own last sent block because nobody else uses it and it is big enough) and the port holds less than its maximum of loans, and otherwise fails with the matching error and no side effect. The returned payload and user header lie completely inside one block, satisfy the requested alignment, do not overlap each other or the metadata, and are mapped back to the same metadata from the payload address alone. No block is in use by two loans at once, in one process or several.',
  ['inputs', 'configurations', 'schedules'], 'all payload sizes, alignments, user header sizes and alignments, pool configurations and interleavings of allocation and release',
  'sizes, alignments and block positions form a space the tests sample at a few points; exclusivity depends on the interleaving of allocations and releases',
  [PS + 'mepoo/chunk_header.cpp', PS + 'mepoo/chunk_settings.cpp', PS + 'mepoo/memory_manager.cpp', PS + 'mepoo/mem_pool.cpp'],
  [('required chunk size computation', PS + 'mepoo/chunk_settings.cpp'), ('placement of payload and back offset', PS + 'mepoo/chunk_header.cpp'), ('choice of pool', PS + 'mepoo/memory_manager.cpp')],
  [('pool list', 'pools in ascending block size', PO + 'internal/mepoo/memory_manager.hpp')], ['MemoryManager::getChunk', 'ChunkHeader'], YIELD)

p('C06', 'Late subscribers get exactly the requested most recent history, in order',
  'A subscriber that connects to a publisher with history first receives the most recent samples sent by that publisher, in order and without gap before the first live sample: as many as it requested, limited by what the publisher keeps and has sent so far, and never one of them twice on the same connection. Samples sent while the publisher is not offered count as history.',
  ['histories', 'schedules', 'configurations'], 'every history capacity, requested history and queue capacity, every sequence of sends, offers and subscriptions and every interleaving of a send with the connection being established',
  'the tests connect at quiet moments; whether a sample falls between history and live delivery depends on the interleaving of send and discovery',
  [BB + 'chunk_distributor.inl', PS + 'popo/ports/publisher_port_roudi.cpp', PS + 'popo/ports/publisher_port_user.cpp'],
  [('history delivery when a queue is added', BB + 'chunk_distributor.inl')],
  [('history', 'most recent samples of a publisher', BB + 'chunk_distributor_data.hpp')], ['Subscriber::take'], YIELD)

p('C07', 'Ports connect exactly when service, state and policies match',
  'After discovery has processed all requests, a subscriber is connected to a publisher if and only if both name the same service, the publisher is offered, the subscriber is subscribed and their policies are compatible (blocking demands and history demands), within the configured number of subscribers per publisher - regardless of the order and number of create, offer, stop-offer, subscribe, unsubscribe and destroy operations. The subscription state each subscriber reports agrees with this, and the publisher reports subscribers exactly when some are connected.',
  ['histories', 'configurations', 'schedules'], 'every sequence of port operations and discovery runs over any number of publishers and subscribers of any policy',
  'the tests go through single connection orders; the state machines of many ports interact through messages whose order varies',
  [PS + 'roudi/port_manager.cpp', PS + 'popo/ports/subscriber_port_multi_producer.cpp', PS + 'popo/ports/subscriber_port_single_producer.cpp', PS + 'popo/ports/publisher_port_roudi.cpp'],
  [('discovery loop and compatibility rules', PS + 'roudi/port_manager.cpp'), ('port state machines', PS + 'popo/ports/subscriber_port_single_producer.cpp')],
  [('subscription state', 'state of the subscriber state machine', PO + 'internal/popo/ports/subscriber_port_data.hpp'), ('offered flag', 'state of the publisher', PO + 'internal/popo/ports/publisher_port_data.hpp')], ['Subscriber::getSubscriptionState', 'Publisher::hasSubscribers', 'Subscriber::take'])

p('C08', 'Lock-free queues behave as bounded FIFO queues under any interleaving',
  'Concurrent pushes and pops on the queues that carry samples between threads and processes always return results that some sequential order of the calls on a bounded first-in-first-out queue explains: no element is lost, duplicated, torn or reordered, emptiness and fullness answers are truthful, and overflow removes exactly the oldest element and returns it to the pusher. Changing the capacity at run time keeps the most recent elements in order.',
  ['schedules', 'histories'], 'every interleaving of the atomic steps of any number of producers and consumers the queue type allows, every capacity',
  'stress tests sample few schedules on strongly ordered hardware; lost or duplicated elements need an exact interleaving of several atomic steps',
  [HC + "mpmc_lockfree_queue/mpmc_lockfree_queue.inl", HC + "mpmc_lockfree_queue/mpmc_resizeable_lockfree_queue.inl", HC + 'mpmc_lockfree_queue/mpmc_index_queue.inl', HC + 'spsc_fifo.inl', HC + 'spsc_sofi.inl', BB + 'variant_queue.inl'],
  [('compare-and-swap on read/write positions with cycle counts', HC + 'mpmc_lockfree_queue/mpmc_index_queue.inl'), ('overflow by moving the read position', HC + 'spsc_sofi.inl')],
  [('read and write position', 'positions of the next pop and push', HC + 'mpmc_lockfree_queue/mpmc_index_queue.hpp')], ['push', 'pop', 'tryPush', 'size'], YIELD)

p('C09', 'Lock-free index allocation never hands out an index twice or loses one',
  'Concurrent pops and pushes on the lock-free free list give each index to at most one owner at a time, succeed whenever an index is free, reject an index that is out of range or already free, and never lose an index. The same holds at any point at which one of the participants stops forever: the others keep working and lose at most what the stopped one held.',
  ['schedules', 'crash_points'], 'every interleaving of the atomic steps of any number of participants (including reuse of the same index in between) and every point at which participants stop',
  'the ABA situation and stopped participants need exact schedules that stress tests do not force',
  [HC + 'mpmc_loffli.hpp', 'iceoryx_hoofs/concurrent/buffer/source/mpmc_loffli.cpp', HC + 'mpmc_loffli.inl'],
  [('compare-and-swap on head with ABA counter', 'iceoryx_hoofs/concurrent/buffer/source/mpmc_loffli.cpp')],
  [('head', 'first free index and change counter', HC + 'mpmc_loffli.hpp')], ['pop', 'push'], YIELD)

p('C10', 'Limits on loaned and held samples are exact, reported and recoverable',
  'A publisher, client or server may have the configured number of loans open at once and a subscriber, client or server may hold the configured number of received samples at once; the next attempt fails with the matching error, disturbs nothing that is already loaned, held or queued except for the one received sample it drops, and works again as soon as one is given back. Samples that are given back although they were never handed out are rejected without effect on others.',
  ['histories', 'configurations'], 'every sequence of loans, releases, sends, takes and misuse around the limits',
  'tests fill a limit once from a fresh port; bookkeeping that drifts with the order of releases shows only over longer histories',
  [PO + 'internal/popo/used_chunk_list.inl', BB + 'chunk_sender.inl', BB + 'chunk_receiver.inl'],
  [('used chunk list', PO + 'internal/popo/used_chunk_list.inl')],
  [('used chunk list', 'chunks a user port currently owns', PO + 'internal/popo/used_chunk_list.hpp')], ['Publisher::loan', 'Subscriber::take'])

p('C11', 'Responses reach exactly the client that asked, requests the one server',
  'A request sent by a connected client arrives at the connected server, in the client\'s send order and at most once; the response to it arrives only at that client, carries the identity (sequence id) of that request and the content the server wrote, and arrives at most once, in the order in which the server sent the responses to that client. Requests and responses are lost only through full discard-oldest queues, disconnection or client/server destruction; a response whose client is gone is reported as not deliverable and leaks nothing.',
  ['histories', 'schedules'], 'every sequence and interleaving of request, take, response, connect, disconnect, offer and destroy with several clients and server incarnations, every queue configuration',
  'tests use one client and one server in a fixed order; misrouting needs clients that come and go while responses are outstanding',
  [PS + 'popo/ports/client_port_user.cpp', PS + 'popo/ports/server_port_user.cpp', PS + 'popo/ports/server_port_roudi.cpp', PS + 'popo/ports/client_port_roudi.cpp', PS + 'popo/rpc_header.cpp', BB + 'chunk_distributor.inl', BB + 'chunk_sender.inl'],
  [('response routed by queue identity stored in the request header', PS + 'popo/ports/server_port_user.cpp')],
  [('client queue id', 'identity of the response queue in a request', PO + 'popo/rpc_header.hpp')], ['Client::send', 'Server::take', 'Server::send', 'Client::take'], YIELD)

p('C12', 'Clients and servers connect exactly when service and policies match',
  'After discovery has processed all requests, a client is connected if and only if it asked for it and a server of the same service with compatible policies is offered and had room for it when the later of the two asked; the state it reports agrees. At most one server per service exists at any time, so that a further one is refused and becomes possible again once the first is destroyed. No sequence of user operations brings the daemon down.',
  ['histories', 'configurations'], 'every sequence of create, destroy, offer, stop-offer, connect, disconnect and discovery over several clients and servers of any policy',
  'tests go through single orders; the daemon treats an unexpected message in some state as fatal, and which messages are possible in which state depends on the whole history',
  [PS + 'roudi/port_manager.cpp', PS + 'popo/ports/client_port_roudi.cpp', PS + 'popo/ports/server_port_roudi.cpp'],
  [('client state machine', PS + 'popo/ports/client_port_roudi.cpp'), ('unique server check', PS + 'roudi/port_manager.cpp')],
  [('connection state', 'state of the client', PO + 'internal/popo/ports/client_port_data.hpp')], ['Client::getConnectionState', 'Server::hasClients'])

p('C13', 'A process dying at any point leaves all others unharmed and leaks nothing',
  'If a process dies at any point of any operation and the daemon then removes it, all its ports disappear, every connection to them is undone, nothing the remaining processes hold, have queued or keep as history is lost or altered, and they can go on communicating. All memory the dead process held becomes available again; only a block that was in transit between two owners at the instant of death may be lost.',
  ['crash_points', 'histories'], 'every step of every operation as crash point, in every history',
  'no test kills a participant inside an operation; consistency at each intermediate step is exactly what has to hold',
  [PO + 'internal/popo/used_chunk_list.inl', BB + 'chunk_sender.inl', BB + 'chunk_receiver.inl', BB + 'chunk_distributor.inl', PS + 'roudi/port_manager.cpp', PS + 'mepoo/shm_safe_unmanaged_chunk.cpp'],
  [('crash-consistent used chunk list', PO + 'internal/popo/used_chunk_list.inl'), ('removal of the ports of a process', PS + 'roudi/port_manager.cpp')],
  [('used chunk list', 'chunks a dead process held', PO + 'internal/popo/used_chunk_list.hpp')], ['MemPool usage', 'Subscriber::take of the survivors'], YIELD)

p('C14', 'The daemon tracks exactly the living, compatible, registered processes',
  'A process is registered under its name at most once; a compatible process is accepted and answered, an incompatible one or one beyond the limit is refused without effect on others; registering a name again or letting its heartbeat expire removes everything of the former incarnation first. After unregistering or removal the name and all resources are free again, requests of unknown processes change nothing, and other processes are never affected.',
  ['histories', 'inputs', 'fault_sequences'], 'every sequence of register, re-register, unregister, resource requests, heartbeats, expiry and monitoring for several names, versions and users',
  'the tests register one or two processes; leftovers of former incarnations show only after particular sequences',
  [PS + 'roudi/process_manager.cpp', PS + 'roudi/process.cpp', PS + 'roudi/roudi.cpp', PS + 'version/version_info.cpp', PS + 'runtime/heartbeat.cpp'],
  [('process list', PS + 'roudi/process_manager.cpp')], [('process list', 'registered processes', PO + 'internal/roudi/process_manager.hpp')], ['ProcessManager', 'IPC answers'])

p('C15', 'Service discovery answers exactly the currently offered services',
  'Searching for services by any combination of service, instance and event names or wildcards finds exactly the matching services that are offered by at least one publisher (or server, as asked) at the time the search data was published, each once, however often it is offered and stopped and by however many ports. The registry refuses entries only when it is full, becomes usable again when entries go, and every change is announced.',
  ['histories', 'inputs'], 'every sequence of offers, stops, creations, removals and process deaths over several services, every search pattern',
  'reference counts per service and slot reuse depend on the whole history of offers',
  [PS + 'roudi/service_registry.cpp', PS + 'roudi/port_manager.cpp', PS + 'runtime/service_discovery.cpp'],
  [('reference counted registry', PS + 'roudi/service_registry.cpp'), ('registry publication', PS + 'roudi/port_manager.cpp')],
  [('service registry', 'offered services with counts', PO + 'internal/roudi/service_registry.hpp')], ['ServiceDiscovery::findService'])

p('C16', 'A WaitSet never loses, invents or misattributes a trigger',
  'If an attached event or state occurred before or while a thread waits on a WaitSet, the wait returns (a timed wait before or at its deadline) and reports it with the id, origin and callback given at attachment; state-based attachments are reported as long as the state lasts, event-based ones once per batch of events. Nothing is reported that did not occur or is no longer attached; the capacity limit and double attachment are refused without effect.',
  ['schedules', 'histories'], 'every interleaving of notifications with attach, detach, wait and destruction of attached objects',
  'a lost wake-up needs the notification between two particular steps of the wait',
  [PO + 'internal/popo/wait_set.inl', PS + 'popo/trigger.cpp', PS + 'popo/trigger_handle.cpp', PS + 'popo/user_trigger.cpp', PS + 'popo/building_blocks/condition_listener.cpp', PS + 'popo/building_blocks/condition_notifier.cpp', PS + 'popo/notification_info.cpp'],
  [('condition variable with notification flags', PS + 'popo/building_blocks/condition_listener.cpp')],
  [('active notifications', 'which attachments were notified', BB + 'condition_variable_data.hpp')], ['WaitSet::wait', 'WaitSet::timedWait'], YIELD)

p('C17', 'A Listener calls back for every event, and never after detaching',
  'After an attached event occurs, the Listener runs the callback attached for it, with the right origin and user data, at least once after the most recent occurrence and at most once per occurrence; callbacks run one at a time. An attachment that takes the place of one detached with unanswered occurrences may be called once for each of these in addition. Once detaching has returned (outside the callback) or the Listener or the origin is destroyed, the callback is never started again; attaching beyond the capacity or twice is refused without effect.',
  ['schedules', 'histories'], 'every interleaving of events with attach, detach, callback execution and destruction',
  'missed callbacks and callbacks after detach need exact interleavings between the event thread and the user threads',
  [PS + 'popo/listener.cpp', PO + 'internal/popo/listener.inl', PS + 'popo/trigger_handle.cpp', PS + 'popo/building_blocks/condition_listener.cpp'],
  [('per-event lock around the callback', PS + 'popo/listener.cpp'), ('index manager', PO + 'internal/popo/listener.inl')],
  [('event slots', 'attached events', PO + 'popo/listener.hpp')], ['callbacks'], YIELD)

p('C18', 'A notification wakes the waiting thread and is never lost',
  'Whenever a notification is issued on a condition variable, by any number of notifiers in any processes, the listening side that waits now or later returns and reports exactly the origins that notified since they were last reported; a timed wait reports nothing only if no notification that was not yet reported was completed before its deadline (it may return empty early because of a notification still in progress or already reported). A notifier that dies within its notification may leave it unreported, but not the notifications of others. Destroying the condition variable ends a pending wait.',
  ['schedules', 'crash_points'], 'every interleaving of notifiers, waiter and destruction at each atomic step, every point at which a notifier dies',
  'a lost wake-up needs the notifier between two particular steps of the waiter',
  [PS + 'popo/building_blocks/condition_listener.cpp', PS + 'popo/building_blocks/condition_notifier.cpp', PS + 'popo/building_blocks/condition_variable_data.cpp', 'iceoryx_hoofs/posix/sync/source/unnamed_semaphore.cpp'],
  [('flag before semaphore post, reset before collect', PS + 'popo/building_blocks/condition_listener.cpp')],
  [('active notifications', 'pending origins', BB + 'condition_variable_data.hpp')], ['ConditionListener::wait', 'ConditionListener::timedWait'], YIELD)

p('C19', 'Port slots are unique, limited exactly, and reusable after removal',
  'Creating publishers, subscribers, clients, servers, interfaces and condition variables succeeds until the configured number exists and then fails with an error and without effect; every port gets an identity no other port ever had; removing a port (by its user or with its process) frees exactly its slot after the next discovery and no other port is affected. Services reserved for the daemon cannot be offered by others.',
  ['histories', 'configurations'], 'every sequence of creations and removals of all kinds of ports by several processes',
  'tests fill each pool once; reuse of slots after removal in arbitrary order is not covered',
  [PS + 'roudi/port_pool.cpp', PS + 'roudi/port_manager.cpp', 'iceoryx_hoofs/container/include/iox/detail/fixed_position_container.inl', PS + 'popo/building_blocks/unique_port_id.cpp'],
  [('fixed position containers of the port pool', PS + 'roudi/port_pool.cpp')], [('port pool', 'slots of all port types', PO + 'internal/roudi/port_pool_data.hpp')], ['PortManager::acquire*'])

p('C20', 'IPC channels deliver whole messages, once, in order, from many senders',
  'A message sent successfully through a unix domain socket, named pipe or message queue (a text) is received exactly once, complete and unaltered, and messages of one sender are received in the order in which they were sent. A send that does not succeed (too long, channel full, timeout, no receiver) reports an error and delivers nothing; a receive on an empty channel blocks, times out or reports emptiness as asked, and what another process puts into a socket that is no message is an error for the receiver and nothing else.',
  ['schedules', 'inputs', 'histories'], 'all message lengths and contents up to and beyond the limits, all sequences and interleavings of several senders and a receiver',
  'tests exchange a few messages in lockstep; capacity boundaries, embedded sizes and sender/receiver interleavings are not covered',
  ['iceoryx_hoofs/posix/ipc/source/unix_domain_socket.cpp', 'iceoryx_hoofs/posix/ipc/source/named_pipe.cpp', 'iceoryx_hoofs/posix/ipc/source/message_queue.cpp', 'iceoryx_hoofs/posix/ipc/include/iox/detail/unix_domain_socket.inl'],
  [('lock-free queue plus two semaphores in shared memory', 'iceoryx_hoofs/posix/ipc/source/named_pipe.cpp')], [], ['send', 'receive', 'timedSend', 'timedReceive'], YIELD)

p('C21', 'Control messages and service names survive encoding and decoding',
  'Any sequence of entries without the separator, put into a control message, is read back entry by entry exactly as it was written, and a message that contains an entry with the separator or does not end with it is recognised as invalid. A service description, the options of a port, a version or another set of numbers and strings that is serialised is deserialised to the same values; a text that is not an encoding of the expected fields (cut short, wrong or oversized length, number out of range, string too long, something left over) is refused instead of yielding values.',
  ['inputs'], 'all entry sequences and contents (empty entries, separators, digits, maximum lengths), all truncations and alterations of encoded messages',
  'tests encode a few hand-picked messages',
  [PS + 'runtime/ipc_message.cpp', PO + 'internal/runtime/ipc_message.inl', PS + 'capro/service_description.cpp', 'iceoryx_hoofs/utility/include/iox/detail/serialization.inl', PS + 'runtime/port_config_info.cpp'],
  [('separator based encoding with validity flag', PS + 'runtime/ipc_message.cpp'), ('length prefixed serialization', 'iceoryx_hoofs/utility/include/iox/detail/serialization.inl')], [], ['IpcMessage', 'Serialization', 'ServiceDescription'])

p('C22', 'Locks have one owner, semaphores count exactly, across threads and death',
  'At most one thread or process owns a mutex, spin lock or file lock at any time; try-lock succeeds exactly when it is free (or the caller already owns a recursive one) and unlocking makes it available to a waiter. Semaphores let through exactly as many waits as posts plus the initial value, and a timed wait fails only after its timeout with none available; a file lock is free again once its owner closed it or died.',
  ['schedules', 'crash_points', 'histories'], 'every interleaving of lock, try-lock, unlock, post, wait of any number of threads; death of the owner',
  'tests use two threads with sleeps; mutual exclusion depends on each interleaving of atomic steps',
  ['iceoryx_hoofs/posix/sync/source/mutex.cpp', 'iceoryx_hoofs/concurrent/sync_extended/source/spin_lock.cpp', 'iceoryx_hoofs/concurrent/sync_extended/source/spin_semaphore.cpp', 'iceoryx_hoofs/posix/sync/source/unnamed_semaphore.cpp', 'iceoryx_hoofs/posix/sync/source/named_semaphore.cpp', 'iceoryx_hoofs/posix/sync/source/semaphore_helper.cpp', 'iceoryx_hoofs/posix/filesystem/source/file_lock.cpp', 'iceoryx_hoofs/concurrent/sync/include/iox/detail/smart_lock.inl'],
  [('owner bookkeeping of the recursive spin lock', 'iceoryx_hoofs/concurrent/sync_extended/source/spin_lock.cpp')], [], ['lock', 'try_lock', 'unlock', 'post', 'wait', 'try_wait', 'timed_wait'], YIELD)

p('C23', 'Fixed-capacity containers equal their unbounded counterparts within capacity',
  'Any sequence of operations on the fixed-capacity vector, list, forward list, stack, fixed-position container and string gives the same results and content as on an unbounded sequence as long as the capacity suffices; an operation that does not fit or addresses a missing element fails as documented and leaves the content unchanged. Every element is constructed once and destroyed once, and elements that are not addressed keep their value and, where promised, their position.',
  ['histories', 'inputs'], 'every sequence of operations up to the capacity and beyond, every position and argument',
  'tests exercise single operations from a few prepared contents; link, free list and lifetime bookkeeping depends on the history',
  ['iceoryx_hoofs/container/include/iox/detail/vector.inl', 'iceoryx_hoofs/container/include/iox/detail/list.inl', 'iceoryx_hoofs/container/include/iox/detail/forward_list.inl', 'iceoryx_hoofs/container/include/iox/detail/fixed_position_container.inl', 'iceoryx_hoofs/buffer/include/iox/detail/stack.inl', 'iceoryx_hoofs/vocabulary/include/iox/detail/string.inl'],
  [('in-place element storage with link indices', 'iceoryx_hoofs/container/include/iox/detail/list.inl')], [], ['container contents', 'element lifetimes'])

p('C24', 'Addresses shared between processes resolve to the same object everywhere',
  'A pointer to an object in a registered memory segment, stored in its shareable form, resolves in every process that registered the segment, at whatever base address, to the same offset in the same segment; a pointer outside all segments keeps its raw value and the null pointer stays null. Registering and unregistering segments affects only their own ids and never redirects pointers into other segments.',
  ['inputs', 'histories', 'configurations'], 'every sequence of registrations, mapping addresses, sizes, offsets including first and last byte and adjacent segments, copies between pointers located in different segments',
  'tests use two fixed segments and a handful of offsets',
  ['iceoryx_hoofs/memory/include/iox/relative_pointer.hpp', 'iceoryx_hoofs/memory/include/iox/detail/relative_pointer.inl', 'iceoryx_hoofs/memory/include/iox/detail/pointer_repository.inl', 'iceoryx_hoofs/memory/source/relative_pointer_data.cpp', 'iceoryx_hoofs/memory/include/iox/relocatable_ptr.hpp', 'iceoryx_hoofs/memory/source/bump_allocator.cpp'],
  [('segment id and offset', 'iceoryx_hoofs/memory/include/iox/detail/relative_pointer.inl'), ('pointer repository', 'iceoryx_hoofs/memory/include/iox/detail/pointer_repository.inl')], [], ['RelativePointer', 'PointerRepository'])

p('C25', 'Processes get exactly the memory segments their groups entitle them to',
  'A user is given read access to exactly those configured payload segments whose reader or writer group it belongs to, write access to exactly the one whose writer group it belongs to, and publishes only into that one; a user with no write entitlement gets none, one with an ambiguous entitlement is refused. Segments and pools have the configured number and size of blocks, with every block inside its segment and disjoint from all others.',
  ['configurations', 'inputs'], 'every configuration of segments with reader and writer groups and pools, every set of groups of a user',
  'tests use one or two fixed configurations with mocked users',
  [PO + 'internal/mepoo/segment_manager.inl', PO + 'internal/mepoo/mepoo_segment.inl', PS + 'mepoo/mepoo_config.cpp', PS + 'mepoo/segment_config.cpp', PS + 'mepoo/memory_manager.cpp'],
  [('group comparison', PO + 'internal/mepoo/segment_manager.inl')], [], ['SegmentManager'])

p('C26', 'Introspection data agrees with the real state of the system',
  'The introspection reports list exactly the registered processes and existing ports, each with its owner, service and state, the connections with their true subscription state, and for every pool the configured size and the number of blocks in use; after any sequence of changes the next report reflects them.',
  ['histories'], 'every sequence of process, port and memory operations followed by a report',
  'tests compare single reports after one change',
  [PO + 'internal/roudi/introspection/port_introspection.inl', PO + 'internal/roudi/introspection/process_introspection.inl', PO + 'internal/roudi/introspection/mempool_introspection.inl'],
  [('introspection data containers', PO + 'internal/roudi/introspection/port_introspection.inl')], [], ['introspection topics'])

p('C27', 'The C interface behaves exactly as the C++ interface it wraps',
  'Every sequence of operations carried out through the C interface has the same observable results (payloads, states, errors, triggers) as the same sequence through the C++ interface, and the memory provided by the C user is neither overrun nor leaked by any of them.',
  ['histories'], 'every sequence of C operations on publishers, subscribers, clients, servers, wait sets, listeners and service discovery',
  'the C tests check single calls with fixed arguments',
  ['iceoryx_binding_c/source/c_publisher.cpp', 'iceoryx_binding_c/source/c_subscriber.cpp', 'iceoryx_binding_c/source/c_client.cpp', 'iceoryx_binding_c/source/c_server.cpp', 'iceoryx_binding_c/source/c_wait_set.cpp', 'iceoryx_binding_c/source/cpp2c_enum_translation.cpp', 'iceoryx_binding_c/source/c2cpp_enum_translation.cpp'],
  [('thin wrappers and enum translation', 'iceoryx_binding_c/source/cpp2c_enum_translation.cpp')], [], ['iox_* functions'])

p('C28', 'A subscriber is told about lost samples if and only if it lost some',
  'After samples were discarded because a subscriber\'s queue was full, that subscriber\'s next query for lost samples answers yes, once per batch of losses; it answers no if nothing was lost since the last query. A loss is never reported to another subscriber.',
  ['histories', 'schedules'], 'every sequence and interleaving of sends, takes and queries',
  'a lost report needs an overflow between two steps of the query',
  [BB + 'chunk_queue_popper.inl', BB + 'chunk_queue_pusher.inl', BB + 'chunk_queue_data.hpp'],
  [('lost flag', BB + 'chunk_queue_popper.inl')], [('lost flag', 'set on overflow', BB + 'chunk_queue_data.hpp')], ['Subscriber::hasMissedData'], YIELD)

p('C29', 'Value types hold exactly one well-defined alternative and own it once',
  'Optional, variant, expected, unique pointer, scope guard, function and similar value types, after any sequence of construction, assignment, copy, move, emplace, swap and reset, hold exactly what their ordinary counterparts would hold; every contained object is constructed and destroyed exactly once, and an action guarded for scope exit runs exactly once.',
  ['histories'], 'every sequence of operations on two or three objects of each type',
  'tests cover single transitions; lifetime errors need particular sequences such as self-assignment or assignment between different alternatives',
  ['iceoryx_hoofs/vocabulary/include/iox/detail/optional.inl', 'iceoryx_hoofs/vocabulary/include/iox/detail/variant.inl', 'iceoryx_hoofs/vocabulary/include/iox/detail/expected.inl', 'iceoryx_hoofs/memory/include/iox/detail/unique_ptr.inl', 'iceoryx_hoofs/functional/include/iox/detail/storable_function.inl', 'iceoryx_hoofs/memory/include/iox/detail/scope_guard.inl'],
  [('manual lifetime management', 'iceoryx_hoofs/vocabulary/include/iox/detail/variant.inl')], [], ['value', 'lifetimes'])

p('C30', 'Data handed over through lock-free structures is fully visible',
  'Whatever a thread wrote before it handed an element, index, sample or notification to another one is visible to that other one after it received it, under the guarantees of the language memory model and not just on strongly ordered processors: no access to handed-over data races with its preparation or reuse.',
  ['schedules'], 'every interleaving of the synchronising operations and every weakly ordered execution the memory model allows for them',
  'tests run on one processor type whose strong ordering hides a missing release or acquire',
  [HC + "mpmc_lockfree_queue/mpmc_lockfree_queue.inl", HC + 'mpmc_lockfree_queue/mpmc_index_queue.inl', HC + 'spsc_fifo.inl', HC + 'spsc_sofi.inl', 'iceoryx_hoofs/concurrent/buffer/source/mpmc_loffli.cpp', PS + 'mepoo/shared_chunk.cpp'],
  [('release/acquire orders of the atomic operations', HC + 'mpmc_lockfree_queue/mpmc_index_queue.inl')], [], ['recorded memory orders of the atomic operations'], YIELD)

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P))
