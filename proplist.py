NOT_APPLICABLE = []
UNIT = 'The existing tests are unit programs for containers, buffers, timers and string helpers; none starts the service or sends it a packet.'

prop('P01', 'No client input can crash, corrupt or stall the service',
     'Whatever bytes any client sends over UDP or TCP, malformed, truncated, self-referencing or in any number and segmentation, the service keeps '
     'running, touches no memory outside its objects, and goes on answering well-formed queries of other clients correctly.',
     ['inputs', 'histories', 'configurations'], 'every byte sequence on the listening sockets, in every configuration of cache, rules and forwarding',
     UNIT, ['udpfrontend.c', 'tcpfrontend.c', 'iheader.c', 'dnsparser.c', 'dnsgenerator.c', 'hostscontainer.c', 'stringchunk.c', 'filter.c'],
     [('message acceptance', 'iheader.c IHeader_Fill'), ('wire parser', 'dnsparser.c'), ('TCP reassembly', 'tcpfrontend.c'), ('OPT insertion', 'mmgr.c, dnsgenerator.c')],
     'sanitizers + liveness monitor under hostile client traffic', 'Sampled inputs from a structured mutation generator; memory errors as ASan/UBSan see them.')

prop('P02', 'No upstream or proxy input can crash, corrupt or stall the service',
     'Whatever bytes an upstream server or proxy sends back, over UDP, TCP or SOCKS5, including replies that match an outstanding query but are malformed inside, '
     'the service keeps running, touches no memory outside its objects, and goes on answering other queries correctly.',
     ['inputs', 'histories', 'configurations', 'fault_sequences'], 'every reply byte sequence, segmentation and connection fault, in every configuration',
     UNIT, ['udpm.c', 'tcpm.c', 'iheader.c', 'dnsparser.c', 'dnsgenerator.c', 'dnscache.c', 'ipmisc.c', 'hosts.c', 'domainstatistic.c'],
     [('reply acceptance', 'udpm.c UdpM_Works, tcpm.c'), ('reply parser', 'dnsparser.c'), ('caching of replies', 'dnscache.c'), ('address filters', 'ipmisc.c'), ('redirect merge', 'hosts.c')],
     'sanitizers + liveness monitor under hostile upstream traffic', 'Sampled replies from a structured mutation generator; memory errors as ASan/UBSan see them.')

prop('P03', 'Every reply reaches exactly the client and query it belongs to',
     'A client receives a reply only to a query it has outstanding itself: same identifier, same name and same type, at most once per query, with the records the upstream gave for '
     'exactly that name and type, and every query answered upstream is answered to its client. This holds when other clients use the same identifiers, when names collide in hashes, and when upstreams '
     'reorder, duplicate, delay or forge replies.',
     ['histories', 'schedules', 'inputs'], 'all interleavings of concurrent queries and replies of any number of clients on UDP and TCP',
     UNIT, ['mcontext.c', 'udpm.c', 'tcpm.c', 'iheader.c', 'hosts.c', 'mmgr.c'],
     [('outstanding-query table', 'mcontext.c'), ('return address', 'iheader.c IHeader_SendBack'), ('redirect correlation', 'hosts.c')],
     'online exactly-once ledger over client packets, id-collision stress', 'Exactly-once and ownership judged on every packet of the run; schedules sampled with injected delays.')

prop('P04', 'Queries and replies pass through unchanged on every transport',
     'With no rewriting option in effect the server receives exactly the bytes of the client\'s query, once per selected server, and the client receives exactly the bytes of the '
     'server\'s reply, for messages up to 3000 bytes. This holds for UDP and TCP on either side, through a SOCKS5 proxy, over IPv4 and IPv6, and for every way the TCP byte streams are cut into segments.',
     ['inputs', 'schedules', 'configurations'], 'all queries and replies, all transports on both legs, all segmentations',
     UNIT, ['udpfrontend.c', 'tcpfrontend.c', 'udpm.c', 'tcpm.c', 'iheader.c', 'mmgr.c'],
     [('forwarding', 'udpm.c UdpM_Send, tcpm.c TcpM_Send'), ('length framing', 'tcpm.c, tcpfrontend.c'), ('reply hand-back', 'iheader.c IHeader_SendBack')],
     'byte-for-byte differential monitor between both sides', 'Every packet on both sides compared; inputs, sizes and segmentations sampled.')

prop('P06', 'Every forwarded query goes to the server group its name selects',
     'Each forwarded query reaches servers of exactly one group: the last one listing the longest domain equal to or above the queried name, else one with a matching wildcard rule, else one with the catch-all rule, '
     'always among the groups of the query\'s transport unless conversion is enabled; a name no rule covers still goes to some group. '
     'In a parallel group every server receives it, otherwise exactly one, and the client gets that group\'s answer; letter case, rule order, rule count and the place of the rules (inline or files) do not matter.',
     ['configurations', 'inputs'], 'all sets of groups and domain rules, all query names, types and transports',
     UNIT, ['mmgr.c', 'stringchunk.c', 'simpleht.c', 'udpm.c', 'tcpm.c', 'addresslist.c', 'readconfig.c'],
     [('group selection', 'mmgr.c MMgr_Send, ModuleFitRequest'), ('domain matching', 'stringchunk.c StringChunk_Domain_Match_WildCardRandom'), ('group files', 'mmgr.c Modules_InitFromFile'), ('server choice', 'addresslist.c, udpm.c')],
     'model-based monitor of which server received each query', 'Generated overlapping configurations; every query of the run judged against an independent precedence model.')

prop('P07', 'Disabled types and domains are never resolved; all else is unaffected',
     'A query whose type is disabled, or whose name equals, lies below or matches a disabled domain or pattern, in any letter case, is never sent to a server and never answered with records: its client gets one '
     'empty response with its own identifier and question. Every other query is served as if the lists did not exist, including names that merely share text with a rule, and a reloaded list takes full effect.',
     ['configurations', 'inputs', 'histories'], 'all disabled-type/domain/list configurations, all queries, before and after reloads, with cache and hosts on',
     UNIT, ['filter.c', 'stringchunk.c', 'simpleht.c', 'bst.c', 'readline.c', 'mmgr.c', 'iheader.c'],
     [('filter', 'filter.c Filter_Out'), ('domain matching', 'stringchunk.c StringChunk_Domain_Match'), ('empty response', 'iheader.c MsgContext_SendBackRefusedMessage'), ('reload', 'filter.c Filter_Update')],
     'model-based monitor of client replies and server logs', 'Generated rule sets and near-miss names; every query judged at both sides.')

prop('P08', 'Names in hosts are answered from hosts, everything else is forwarded',
     'An address query for a name listed in hosts, exactly or by pattern, in any letter case, is answered without contacting a server with one record carrying one of the addresses listed for it: exact items before patterns, inline items before the hosts file, '
     'and for an IPv6 query on a name having only IPv4 the IPv4-mapped address, or the empty response when IPv6 blocking is on. Excluded names, unlisted names and other record types are forwarded and answered by the server.',
     ['configurations', 'inputs'], 'all hosts lists (inline and files, any size, spacing, comments, address notation) and all queries',
     UNIT, ['hosts.c', 'statichosts.c', 'dynamichosts.c', 'hostscontainer.c', 'hostsutils.c', 'stringchunk.c', 'ipchunk.c', 'utils.c', 'dnsgenerator.c'],
     [('hosts lookup', 'hostscontainer.c HostsContainer_Find'), ('answer generation', 'hostsutils.c HostsUtils_Try'), ('file loading', 'dynamichosts.c DynamicHosts_Load')],
     'model-based monitor of client replies and server logs', 'Generated hosts lists; every query judged against an independent model giving the allowed outcomes.')

prop('P09', 'A name aliased in hosts resolves to its target\'s addresses',
     'An address query for a name that hosts aliases to another name, exactly, by pattern or over a chain of aliases, gets exactly one response to its own question: the alias records followed by exactly the alias and address records its target resolves to, '
     'with the target\'s response code, the target being looked up in hosts, the cache and the server group the target selects. Aliases that form loops or point to targets that never answer do not disturb any other query.',
     ['configurations', 'histories', 'schedules'], 'all alias configurations and any number of concurrent queries, on UDP and TCP',
     UNIT, ['hosts.c', 'hostsutils.c', 'hostscontainer.c', 'mcontext.c', 'dnsgenerator.c', 'dnsparser.c'],
     [('redirect loop', 'hosts.c Hosts_SocketLoop'), ('merging', 'hostsutils.c HostsUtils_CombineRecursedResponse'), ('waiting queries', 'mcontext.c')],
     'model-based monitor of merged responses under concurrency', 'Generated alias graphs and target answers; every response judged record by record.')

prop('P10', 'The cache answers only what servers said, while it is valid',
     'With the cache on, every record a client receives without its query being forwarded was stated by a server for exactly that name, type and data, not longer ago than its TTL, and carries the TTL that remains (never more than was stated, also when the clock is set back); the records form one chain of '
     'aliases from the asked name to records of the asked type, and the set is complete as the server gave it, never a part of it. Expired or uncacheable data and truncated replies are asked for again, valid data are not. '
     'Disabled domains and hosts still come first, and nothing changes when the cache is full, swept, shared by many clients, or kept in a file.',
     ['histories', 'inputs', 'schedules', 'configurations'], 'all sequences of queries and server replies over time, any names, record types, sizes and cache sizes',
     UNIT, ['dnscache.c', 'cacheht.c', 'array.c', 'dnsparser.c', 'dnsgenerator.c', 'mmgr.c', 'timedtask.c'],
     [('storing', 'dnscache.c DNSCache_AddItemsToCache'), ('lookup', 'dnscache.c DNSCache_FetchFromCache'), ('space management', 'cacheht.c'), ('sweep', 'dnscache.c DNSCacheTTLCountdown_Task')],
     'ledger of all server statements on a virtual clock, every cached record justified', 'Every answer of the run justified from recorded statements; histories sampled, ages steered to the TTL boundaries.')

prop('P11', 'The TTL rules decide how long each record is kept and served',
     'For each record of a reply the applicable CacheControl rule (by longest listed domain, then pattern) gives its lifetime: orig keeps the server\'s TTL, nocache keeps nothing, fixed n gives n, vari ax+b gives a*TTL+b. A rule of the asked name applies to all records of the reply, '
     'with `$\' only to records whose own name has no rule, with `$$\' only by own rules. OverrideTTL n and MultipleTTL n act as a rule on every name without one. A cached record is served with that lifetime less its age and asked again afterwards; the forwarded answer itself keeps the server\'s TTLs.',
     ['configurations', 'inputs', 'histories'], 'all rule sets, alias chains, TTLs and ages',
     UNIT, ['cachettlcrtl.c', 'dnscache.c', 'stringchunk.c'],
     [('rule parsing', 'cachettlcrtl.c CacheTtlCrtl_Add_From_String'), ('rule choice', 'dnscache.c DNSCache_AddAItemToCache'), ('global options', 'dnscache.c DNSCache_Init')],
     'model-based monitor of TTLs on a virtual clock', 'Generated rule sets and alias chains; every cached record judged against an independent TTL model.')

prop('P12', 'A file cache survives any end of the process',
     'With a cache kept in a file and reloaded, whenever and however the process ended, also killed while it was storing replies, a restart serves: data completely stored before the end and still valid are answered again without asking a server, '
     'with the TTL that remains including the time it was down; expired data are asked for again; and nothing is answered that no server stated. A cache file of another size or format is refused or, when overwriting is allowed, replaced by an empty one; without reloading the cache starts empty.',
     ['crash_points', 'histories'], 'all moments at which the process ends, any number of times on one file',
     UNIT, ['dnscache.c', 'cacheht.c', 'array.c'],
     [('loading', 'dnscache.c LoadCacheFromFile, InitCacheInfo'), ('hash chains in the file', 'cacheht.c'), ('compatibility check', 'dnscache.c IsReloadable')],
     'crash injection at random and chosen points, ledger of statements across restarts', 'Process crashes (SIGKILL) with the mapping kept by the kernel; crash points sampled by time and by call of time().')

prop('P13', 'Blocked replies never reach a client, acceptable ones always do',
     'A server reply with an answer record holding a blocked IPv4 or IPv6 address (listed singly or by block), or with a negative response code while negative responses are blocked, is never passed to a client, never cached, and does not use up the query: '
     'the first acceptable reply of the same or another server of the group is still passed on unchanged. Replies that merely mention a blocked address elsewhere are not affected. With AP on, a query goes to UDP servers with an OPT record (the client\'s own, otherwise one is added) and UDP replies without one are blocked likewise.',
     ['inputs', 'configurations', 'histories'], 'all block lists and all sequences of replies of one or several servers',
     UNIT, ['ipmisc.c', 'ipchunk.c', 'udpm.c', 'tcpm.c', 'dnsparser.c', 'bst.c'],
     [('judging a reply', 'ipmisc.c IPMisc_Process'), ('address matching', 'ipchunk.c IpChunk_Find'), ('discarding', 'udpm.c UdpM_Works, tcpm.c TcpM_Works'), ('AP', 'iheader.c MsgContext_AddFakeEdns, MsgContext_IsBlocked')],
     'scripted reply sequences with a model of which are blocked', 'Generated block lists and reply sequences; every client packet judged.')

prop('P14', 'Addresses in replies are substituted exactly as configured',
     'Every IPv4 and IPv6 address in the answers of a server reply that a substitution rule covers, by exact address before address block, inline or from files, is replaced by the configured address before the client or the cache gets it; '
     'all other addresses, records and bytes stay as the server sent them. Blocks may nest or touch, lists may be of any size, and a reloaded list takes full effect.',
     ['inputs', 'configurations'], 'all substitution lists and all replies',
     UNIT, ['ipmisc.c', 'ipchunk.c', 'bst.c', 'utils.c', 'readline.c', 'dnsparser.c'],
     [('substitution', 'ipmisc.c IPMisc_Process'), ('address matching', 'ipchunk.c IpChunk_Find'), ('list loading', 'ipmisc.c IpMiscMapping_Load')],
     'differential monitor of replies against an independent rule model', 'Generated rule sets and boundary addresses; every record of every reply compared.')

prop('P15', 'Reloading lists and groups under traffic is atomic and harmless',
     'While hosts, disabled names, substitutions and group files are reloaded, every query is answered as some version of each list in force during that query says, entries present in both versions never disappear in between, '
     'a query sent after an answer of the new version was seen never gets the old one, and a changed file takes effect within the update interval. A group set that cannot be built, or hosts none of whose sources can be read, leave the previous state serving.',
     ['schedules', 'histories', 'fault_sequences'], 'all interleavings of queries and reloads, all sequences of list versions, including broken ones',
     UNIT, ['dynamichosts.c', 'filter.c', 'ipmisc.c', 'mmgr.c', 'udpm.c', 'tcpm.c', 'timedtask.c', 'hosts.c', 'downloader.c', 'rwlock.h'],
     [('reload chain', 'dynamichosts.c GetHostsFromInternet_Thread'), ('list swap', 'dynamichosts.c, filter.c, ipmisc.c under their rwlocks'), ('group swap and retirement', 'mmgr.c Modules_Load, Modules_SafeCleanup')],
     'register-linearizability monitor over answers during reloads, ASan', 'Schedules sampled with injected delays; queries lost at a group switch may be retransmitted.')

prop('P16', 'The threads of the service never race on shared state',
     'While the service answers on UDP and TCP and at the same time times queries out, recreates sockets, sweeps the cache, reloads lists and groups, checks good IPs, rotates the log and writes statistics, no two threads access the same '
     'memory without synchronisation where one of them writes, and no lock is used after its destruction or in opposite orders.',
     ['schedules', 'histories'], 'all interleavings of all threads, in every configuration',
     UNIT, ['udpm.c', 'tcpm.c', 'mmgr.c', 'mcontext.c', 'dnscache.c', 'dynamichosts.c', 'filter.c', 'ipmisc.c', 'goodiplist.c', 'logs.c', 'domainstatistic.c', 'timedtask.c', 'hosts.c', 'utils.c'],
     [('outstanding queries', 'udpm.c under its lock'), ('cache', 'dnscache.c under CacheLock'), ('reloadable lists', 'rwlocks of dynamichosts.c, filter.c, ipmisc.c, mmgr.c'), ('statistics and log', 'domainstatistic.c, logs.c')],
     'ThreadSanitizer over whole-service workloads with injected delays', 'Happens-before detection over executed accesses; schedules sampled; start-up and shutdown are not watched.')

prop('P05', 'A failing server harms only the queries that need it, while it fails',
     'When servers or proxies refuse connections, close or reset them, stay silent, or send garbage, partial or wrong replies, queries of other groups are answered as usual; in a parallel group they are answered as long as one server works; '
     'in a group tried in turn the next server is reached after a time-out; and once a server, its kept connections or the supply of descriptors recover, its queries are answered again without a restart.',
     ['fault_sequences', 'schedules', 'histories'], 'all sequences of failures and recoveries of servers, proxies and descriptors',
     UNIT, ['udpm.c', 'tcpm.c', 'addresslist.c', 'socketpuller.c', 'socketpool.c', 'mcontext.c', 'mmgr.c'],
     [('server choice and time-outs', 'udpm.c UdpM_Works, SweepWorks, addresslist.c AddressList_Advance'), ('TCP connections', 'tcpm.c TcpM_Connect, TcpM_Send_Actual'), ('waiting on sockets', 'socketpuller.c')],
     'fault injection at servers and descriptors with a per-query answer monitor', 'Failures produced by scripted servers; missing answers must repeat in an undisturbed rerun.')

prop('P17', 'Descriptors, threads and memory taken for work are given back',
     'After any amount of queries (answered, lost, malformed), client connections (idle, partial, reset), failing or silent or unreachable TCP servers and proxies, successful and failed reloads, address-list checks and log rotations, once everything pending has expired '
     'the service holds no more descriptors, threads or heap than before, has closed no descriptor it did not own, and stays up and serving with more connections than descriptors can be selected.',
     ['histories', 'fault_sequences'], 'all histories of work followed by rest',
     UNIT, ['tcpm.c', 'udpm.c', 'tcpfrontend.c', 'socketpuller.c', 'socketpool.c', 'bst.c', 'stablebuffer.c', 'mmgr.c', 'mcontext.c', 'dynamichosts.c', 'filter.c', 'ipmisc.c', 'goodiplist.c', 'logs.c', 'dnscache.c'],
     [('connections', 'tcpm.c, tcpfrontend.c'), ('retired groups', 'mmgr.c Modules_SafeCleanup, udpm.c UdpM_Cleanup, tcpm.c TcpM_Cleanup'), ('reloaded lists', 'dynamichosts.c, filter.c, ipmisc.c'), ('node pools', 'bst.c, stablebuffer.c')],
     'gauges of descriptors, threads and allocated bytes over repeated work cycles', 'Growth must go on through every lap of several windows; single lost blocks below the gauges\' noise are not seen.')


prop('P18', 'A name mapped to an address list gets its fastest reachable address',
     'An IPv4 query for a name that hosts map to an address list, exactly or by pattern, is answered without a server with one record carrying one address of exactly that list. Once the list was checked this is an address that accepted a connection first: '
     'one that refuses, at once or later, or stays silent is never chosen while another one accepts within 5 s, a change is followed by the next checks, which come at the interval of the list, and if none accepts the choice so far stays. '
     'Other lists do not matter; IPv6 queries get the empty response when IPv6 blocking is on; all other queries for the name are forwarded.',
     ['schedules', 'configurations', 'fault_sequences'], 'all lists, all behaviours of their addresses and all changes of them',
     UNIT, ['goodiplist.c', 'socketpuller.c', 'socketpool.c', 'timedtask.c', 'hostsutils.c', 'hostscontainer.c', 'hosts.c'],
     [('checking', 'goodiplist.c CheckAList, ThreadJod'), ('answer', 'goodiplist.c GoodIpList_Get, hostsutils.c HostsUtils_Generate'), ('schedule', 'timedtask.c')],
     'scripted listeners with a monitor of the chosen address', 'Speeds are produced by dropped connection attempts (0 s, 1 s, 3 s); equal speeds are not told apart.')


prop('P19', 'Statistics and log account for every query exactly once',
     'With statistics on, every query is counted exactly once under its lower-case name as what became of it (refused or never answered, hosts, cache, UDP, TCP), and every reply discarded for its content once as blocked; each report is complete and well-formed '
     'inside its template, whatever bytes the names hold, and its sums are those of its lines; only queries handled while a report is being written may be missing. '
     'With the log on, each of them leaves one entry, and rotation loses none, overwrites no older file, and keeps every file near the threshold.',
     ['histories', 'inputs', 'schedules'], 'all histories of queries, all names, all moments of reports and rotations',
     UNIT, ['domainstatistic.c', 'logs.c', 'stringchunk.c', 'udpm.c', 'tcpm.c', 'filter.c', 'hosts.c', 'dnscache.c'],
     [('counting', 'domainstatistic.c DomainStatistic_Add'), ('report', 'domainstatistic.c DomainStatistic_Works'), ('rotation', 'logs.c CheckLength'), ('entries', 'logs.c Log_Print')],
     'conservation checker over report and log files against a ledger of the traffic', 'Counts compared after each burst; redirected names whose target stays unanswered are not judged.')


prop('P20', 'What configuration and list files say takes effect, whatever their layout',
     'Every entry of the configuration file, of disabled lists, hosts files, group files and the lists they name, and substitution files takes effect exactly as written, and nothing else does: whatever indentation, blanks, tabs, line ends (LF or CRLF, '
     'the last one missing), `#` and `;` comments of any length, empty lines, letter case of names, and order of lines it has. Configuration lines of any length are taken whole; a line that is invalid or longer than its list allows '
     'affects neither the lines around it nor the rest of the file, and no part of it is taken for an entry. Of repeated switches and numbers the last one holds.',
     ['inputs', 'configurations'], 'all layouts and all lengths of all lines',
     UNIT, ['readline.c', 'readconfig.c', 'stringlist.c', 'filter.c', 'dynamichosts.c', 'hostscontainer.c', 'mmgr.c', 'ipmisc.c', 'main.c'],
     [('lines', 'readline.c ReadLine'), ('options', 'readconfig.c ConfigRead'), ('lists', 'filter.c LoadDomainsFromFile, mmgr.c Modules_InitFromFile, ipmisc.c, dynamichosts.c'), ('long values', 'stringlist.c AppendLast')],
     'differential check of the running service against the model the files were generated from', 'Entries shorter than the documented lengths; lengths around every buffer edge are generated on purpose.')

prop('P21', 'Hosts come complete from all their sources, whatever fails in between',
     'With one or several hosts sources, files or web pages, the hosts in force, and the file they are saved to, are always exactly the last complete copies of all sources that could be read, in their order, as the configured script left them. '
     'Missing or unreadable files, error pages, refused, reset or cut downloads and a full disk contribute nothing, not a part; failed downloads are tried again after HostsRetryInterval until they succeed; if no source could be read, everything stays as it was '
     'and the script is not run. The saved file is the old or the new one, whole, at any end of the process, and is in force from the next start on until the sources answer.',
     ['fault_sequences', 'crash_points', 'histories'], 'all failures of sources, all ends of the process during an update',
     UNIT, ['downloader.c', 'dynamichosts.c', 'utils.c', 'timedtask.c', 'hostscontainer.c'],
     [('download and saving', 'downloader.c GetFromInternet_MultiFiles, GetFromInternet_SingleFile, GetFromInternet_Base'), ('copying', 'utils.c CopyAFile'), ('loading', 'dynamichosts.c DynamicHosts_Load, GetHostsFromInternet_Thread'), ('script', 'utils.c Execute')],
     'fault injection at sources, disk and file operations with a whole-copy oracle', 'Failures produced by a scripted web server, file changes, a file size limit and kills at each file operation.')


prop('P22', 'Every local address is served, and answers come from the address asked',
     'All configured local UDP and TCP addresses, any number, IPv4 and IPv6 mixed, on equal or different ports, are served from the start on and again after a restart however the process ended, also when others in the list cannot be opened. '
     'A query gets exactly the reply due to it from the address, or over the connection, it was sent to, also when the same client asks the same with the same identifier at several addresses at once.',
     ['configurations', 'schedules', 'histories'], 'all lists of local addresses and all interleavings of their clients',
     UNIT, ['udpfrontend.c', 'tcpfrontend.c', 'iheader.c', 'mmgr.c', 'addresslist.c', 'socketpuller.c', 'hosts.c', 'utils.c'],
     [('listening', 'udpfrontend.c UdpFrontend_Init, tcpfrontend.c TcpFrontend_Init'), ('way back', 'iheader.c IHeader_SendBack'), ('waiting', 'socketpuller.c')],
     'ledger of queries by client, address and connection, with the source of each reply', 'Loopback addresses of both families.')

prop('P23', "Only a group's own servers answer for it; strangers' datagrams change nothing",
     'A datagram from any other address or port than those of the servers of a group is never taken for an answer of that group: it is not passed on, does not use up a query, and nothing of it gets into the cache, whether it fits an '
     'outstanding query or not, with one server or several asked at once, IPv4 and IPv6. Datagrams that other programs send to the sockets the service uses internally neither end it nor change any answer.',
     ['inputs', 'schedules'], 'all datagrams of strangers at all moments',
     UNIT, ['udpm.c', 'hosts.c', 'tcpm.c', 'mcontext.c', 'dnscache.c', 'addresslist.c', 'utils.c'],
     [('answers of UDP servers', 'udpm.c UdpM_Works'), ('internal sockets', 'hosts.c Hosts_SocketLoop, tcpm.c TcpM_Works, utils.c TryBindLocal'), ('caching of unmatched answers', 'dnscache.c DNSCache_AddItemsToCache')],
     'attack workload from foreign sources with a ledger of what servers said', 'Strangers do not forge source addresses.')
prop('P24', 'In the background the service is the same as in the foreground',
     'Started with -d, from a named or the default configuration, the service answers, updates its lists, runs the hosts script, logs, caches and survives restarts as in the foreground. The starter ends at once with status 0, names the '
     'serving process and holds none of its streams open; what happens to its session does not touch the service. What the script reads from or writes to its standard streams reaches no file, connection or internal channel of the service.',
     ['configurations', 'histories', 'schedules'], 'all configurations, scripts and ways of starting',
     UNIT, ['main.c', 'logs.c', 'timedtask.c', 'pipes.c', 'dynamichosts.c', 'utils.c', 'dnscache.c'],
     [('going to the background', 'main.c DaemonInit'), ('default place', 'main.c GetDefaultConfigureFile, PrepareEnvironment'), ('script', 'dynamichosts.c GetHostsFromInternet_Thread, utils.c Execute'), ('internal channel', 'timedtask.c, pipes.c')],
     'foreground oracle applied to background runs with marked script output', 'The hosts script is given by the check.')
prop('P25', 'Nothing decided or sent depends on memory that was never written',
     'Whatever clients, servers, proxies and files send, and in every order, no branch taken, address computed, system call made or byte sent to the network depends on memory the service never wrote, or on what an earlier message, longer than '
     'the present one, left behind in a buffer. So the same input in the same state has the same effect, and nobody is told leftovers of what others asked or were answered.',
     ['inputs', 'histories', 'schedules'], 'all inputs and histories',
     UNIT, ['dnsparser.c', 'dnsgenerator.c', 'udpfrontend.c', 'tcpfrontend.c', 'udpm.c', 'tcpm.c', 'hosts.c', 'hostsutils.c', 'dnscache.c', 'ipmisc.c', 'stringchunk.c', 'addresslist.c', 'readconfig.c', 'readline.c', 'mcontext.c', 'iheader.c', 'logs.c', 'domainstatistic.c', 'cachettlcrtl.c'],
     [('messages', 'udpfrontend.c UdpFrontend_Work, tcpfrontend.c TcpFrontend_Work, udpm.c UdpM_Works, tcpm.c TcpM_Works'), ('records', 'dnsparser.c, ipmisc.c IPMisc_Process'), ('lookups', 'stringchunk.c StringChunk_Domain_Match'), ('cache', 'dnscache.c'), ('settings and lists', 'readline.c, readconfig.c')],
     'MemorySanitizer under the workloads of the other checks, with received buffers poisoned beyond what was received', 'libcurl is left out of the build.')

prop('P26', 'No content of list files can crash the service or spoil good lines',
     'Whatever hosts files, disabled lists, substitution files and group files hold, and whatever values the configuration has - malformed, cut, over-long and binary addresses, names, patterns, list references and numbers - '
     'the service touches no memory outside its objects and keeps running and answering (what does not make sense may keep it from starting); at start and at every reload the well-formed lines among the others take effect.',
     ['inputs', 'configurations', 'histories'], 'every byte sequence in the files the service loads, at start and at reloads',
     UNIT, ['utils.c', 'hostscontainer.c', 'hosts.c', 'dynamichosts.c', 'filter.c', 'ipmisc.c', 'ipchunk.c', 'mmgr.c', 'udpm.c', 'tcpm.c', 'addresslist.c', 'stringchunk.c', 'readline.c', 'readconfig.c', 'cachettlcrtl.c', 'goodiplist.c'],
     [('addresses', 'utils.c IPv6AddressToNum, ipchunk.c IpSet_Parse'), ('hosts lines', 'hostscontainer.c HostsContainer_Load'), ('lists', 'filter.c LoadDomainsFromFile, ipmisc.c'), ('groups', 'mmgr.c, udpm.c UdpM_Init, tcpm.c TcpM_Init')],
     'sanitizers + in-force monitor of good lines among hostile ones, over reloads', 'Lines sampled from a generator of damage per kind of field; patterns with at most four stars.')


# How each check reaches what tests cannot, and what a quick run costs (for DESIGN.md).
REACH = {
    'P01': 'A structured mutator (label, pointer, count, OPT and length damage; TCP streams cut anywhere, lied-about lengths, resets, floods of one client against others) drives six configurations of the real service, some 60 000 hostile messages per quick run, 20 s. A memory error need not be visible in an answer to be seen.',
    'P02': 'The fake servers answer queries the service really forwarded, so that hostile replies get past the identifier match into parser, filters, cache, redirect merge and statistics; SOCKS5 replies of every kind. 12 s.',
    'P03': 'Hundreds of outstanding queries of several clients sharing identifiers, names built to collide in the hashes, replies reordered, duplicated, delayed and forged; each packet is checked against the ledger. 13 s.',
    'P04': 'All pairs of transports, direct and through SOCKS5, IPv4 and IPv6, messages of every size up to the limit and streams cut at every kind of place, also by short sends injected below the service; bytes compared on both sides. 6 s.',
    'P05': 'Servers that fail in ten ways and recover, in each kind of group, descriptor exhaustion, time-outs passed on the virtual clock. 27 s.',
    'P06': 'Generated overlapping rule sets (longest domain, wildcards, catch-all, files, transports, hundreds of rules); where every query really arrived is recorded at the servers. 7 s.',
    'P07': 'Generated rule sets with near-miss names, large lists, damaged and missing files, reloads, cache and hosts on; 26 000 queries judged at both sides. 4 s.',
    'P08': 'Generated hosts lists against an independent model; 15 000 queries. 2 s.',
    'P09': 'Generated alias graphs with chains, patterns, loops, silent targets, large answers, hundreds outstanding; each record compared. 4 s.',
    'P10': 'A ledger of all statements with virtual times justifies each record of each answer; ages steered around the TTLs; small, full, swept and file caches; delays injected into locks. 10 s.',
    'P11': 'All rule types and contagiousness kinds in generated combinations over alias chains, ages steered to both sides of each lifetime. 3 s.',
    'P12': 'Some 200 ends of the process per quick run: SIGKILL at random moments, at each call of time() in the storing code, and at single stores into the mapped file (single-stepped build); many cycles on one file. 17 s.',
    'P13': 'Scripted series of blocked and acceptable replies from one or two servers. 5 s.',
    'P14': 'Generated single and block rules of both versions with boundary addresses, large and reloaded lists. 8 s.',
    'P15': 'Continuous traffic over five kinds of lists while they are replaced some hundred times; each answer judged as a read of a single-writer register; injected lock delays. 11 s.',
    'P16': 'The ThreadSanitizer build under all activities at once, with lock delays injected. 20 s.',
    'P17': 'Gauges over windows of repeated work; every failure kind at servers, proxies, clients, reload sources; thousands of connections. 58 s.',
    'P18': 'Real listeners whose backlog is full, freed or closed at the right moment accept or refuse after 0, 1 or 3 s; states change between phases; the choice is polled all the time. 25 s.',
    'P19': 'A ledger of what clients and servers saw is compared, per name and kind, with every report and all rotated log files. 20 s.',
    'P20': 'Files are generated from a model with every layout and with lengths around the edges of the reading buffers; every entry, and every word that must not have become one, is asked for. Some 9 000 names, 15 s.',
    'P21': 'Sources change, vanish, turn unreadable or fail in six ways on the web, alone and together; the disk is full; the process is killed before each opening, closing, renaming and removing of a file of the update; first, middle and last entries of all versions are asked for and the saved file is compared. 50 s.',
    'P22': 'Up to 12 addresses of both families, some of them taken or foreign; some 3 000 queries, with twins to several addresses at once, over forwarding, hosts, aliases, cache and refusals; restarts with connections open. 20 s.',
    'P23': 'The sockets of the running service are found in /proc and shot at from other ports, other addresses with the servers\' ports, other groups\' servers and both families, before, while and after each query; 9 kinds of forgery, crafted internal messages; some 30 000 datagrams. 12 s.',
    'P24': 'Nine configurations decide what takes the descriptors 0 to 2; scripts write marked text, 160 KB or binary noise to both streams and read their input; the marks are searched for in every file and message; updates, log, statistics, restarts with a cache file and signals to the starter\'s group. 12 s.',
    'P26': 'Files of up to 150 hostile lines (addresses of 1 to 60 groups, `::\' anywhere, zones, huge numbers; names and patterns of every damage up to 70 000 bytes; list references; prefixes beyond every bound) with one good line among them are loaded at start and reloaded under ASan and UBSan; the names they speak of are asked for, so that what was loaded is used; the good line of each must take effect. 5 s.',
    'P25': 'The workloads of twenty other checks against a MemorySanitizer build; before each receive and read the whole buffer is marked unwritten, so that leftovers of earlier messages count as well, and each message to the network is examined to the last byte.',
}
# Which check reported which planted bug (tools/catch.sh).
CAUGHT = {'s24-session': 'P24', 's26-option': 'P26', 's24-fork': 'P24', 's06-star': 'P06', 's08-mapped': 'P08', 's10-aliasttl': 'P10', 's13-edns': 'P13, P25', 's13-useup': 'P13', 's03-id': 'P03', 's04-length': 'P04', 's05-failover': 'P05', 's07-long': 'P07',
          's09-rcode': 'P09', 's10-trunc': 'P10', 's11-zero': 'P11', 's12-reload': 'P12', 's14-class': 'P14', 's17-large': 'P17', 's18-pace': 'P18', 's19-rotate': 'P19', 's19-sweep': 'P19', 's20-crlf': 'P20', 's20-rest': 'P20', 's21-byte': 'P21', 's21-append': 'P21', 's22-taken': 'P22'}
