IN, HI, CF, SE = "inputs", "histories", "configurations", "configurations"
PBT_NOTE = ("Searches generated cases only, up to the sizes stated in DESIGN.md; trusts the reference model in pbt/model.py "
            "and Hypothesis. No absence proof.")

P("N01", "General network state is exactly what its update history describes",
  """After any sequence of link assignments (in every index form: full, short, node-object), removals by assigning the no-edge value,
  node and layer additions, a MultilayerNetwork reports exactly the nodes, layers, node-layers and link weights that history leaves:
  the last value per link, undirected links readable from both ends, directed ones from one, everything named in an assignment present.
  This holds for any number of aspects, directed or not, self-links included, with any no-edge value, and for networks that are fully
  interconnected (node-layers are all combinations) or not (only those added or linked). Reading or writing with a number of indices
  that is not a node, short-link or full-link form is refused with KeyError.""",
  [HI, IN, CF], "all histories of assignments, removals, node/layer additions; aspects 0-2, directed/undirected, aligned or not, several noEdge values",
  "The unit tests replay a few fixed constructions; orderings of removal and re-addition, self-links and non-default no-edge values are unbounded.",
  ["pymnet/net.py"],
  [("link store and reverse store", "net.py MultilayerNetwork._set_link/_get_link"), ("index forms", "net.py MultilayerNetwork.__getitem__/__setitem__"),
   ("node/layer registration", "net.py add_node/add_layer/_add_node_to_layer"), ("edge iteration", "net.py MultilayerEdges")],
  ["net[...]", "net.edges", "iter_nodes", "iter_layers", "iter_node_layers", "slices"],
  "generated operation histories against an explicit dictionary model, compared after every step", PBT_NOTE,
  [dict(name="links", meaning="weight per ordered node-layer pair", where="net.py _net/_rnet"), dict(name="node-layers", meaning="which nodes are on which layers", where="net.py slices/_nodeToLayers/_layerToNodes")])

P("N02", "Degrees, strengths and neighbours are those of the links, also after removals",
  """For every node-layer of a MultilayerNetwork the in-, out- and total degree, the in-, out- and total strength and the in-, out- and total
  neighbour iteration equal the count, the weight sum and the distinct set of its links in that direction (total degree counts a
  reciprocated neighbour once, total strength sums both directions), after any history including removals and self-links.
  A filter, given as arguments or by slicing such as net[i,j,s,:] or net[i,:,s,r], restricts all of these to the neighbours with the given
  node and layers.""",
  [HI, IN, CF], "all histories and node-layers, every filter of given/free indices, directed and undirected, 0-2 aspects",
  "Tests look at a handful of degrees on three-node networks; the counters kept incrementally for directed networks depend on the whole history.",
  ["pymnet/net.py"],
  [("total degree bookkeeping", "net.py _set_link _totalDegree"), ("neighbour iteration with filters", "net.py _iter_neighbors_out/_in_dir/_total_dir"),
   ("slicing", "net.py __getitem__"), ("node object", "net.py MultilayerNode")],
  ["deg*, str*, iter_* of node objects", "net[i,:,s,r]"],
  "histories and dense networks against a link-dictionary oracle, every direction and filter, plus the handshake sum", PBT_NOTE)

P("N03", "Equality, hash, copies and the edge list depend on content only",
  """Two networks compare equal exactly when type, directedness, aspects, interconnection kind, no-edge value, couplings, nodes, layers,
  node-layers and link weights agree, whatever the construction order, != is its negation, and equal networks have equal hashes.
  Deep copies and pickle round trips are equal to the original and share no state with it. The edge list contains every link exactly once
  with its weight (coupling links of multiplex networks included) and its length is the number of links, also per intra-layer network.""",
  [IN, HI, CF], "all networks, construction orders, and single-difference mutations (12 kinds)",
  "Tests compare two or three hand-made networks; the equality must discriminate any single difference and ignore any order.",
  ["pymnet/net.py"], [("comparison and hash", "net.py __eq__/__ne__/__hash__ of both classes"), ("edge iterator and length", "net.py MultilayerEdges")],
  ["==, !=, hash()", "copy/pickle", "net.edges, len(net.edges)"],
  "metamorphic: shuffled construction must be equal, mutated content must differ; copies mutated and compared", PBT_NOTE)

P("N04", "A multiplex network keeps one network per layer and every write path agrees",
  """Links set through net[i,j,s], net[i,s][j,s], net.A[s][i,j] or by assigning a whole monoplex network to net.A[s] are the links of exactly
  that layer, nodes added through the network or through a layer's network are seen by both, and an assigned layer network is copied.
  Inter-layer links read as the declared coupling (categorical, ordinal, none or a coupling network, per aspect) between node-layers of the
  same node that exist and differ in exactly one aspect, and as no link otherwise. Setting an inter-layer link or a self-link is refused with KeyError.""",
  [HI, CF], "all histories over the write paths; 1-2 aspects, every coupling kind, directed/undirected, aligned or not",
  "Tests exercise each path once on fully interconnected one-aspect networks.",
  ["pymnet/net.py"], [("per-layer networks", "net.py MultiplexIntraNetDict, MultilayerNetworkWithParent"), ("implicit couplings", "net.py MultiplexNetwork._get_link"),
                      ("refusals", "net.py MultiplexNetwork._set_link")],
  ["net[...]", "net.A[layer]"], "operation histories against the explicit model with couplings written out", PBT_NOTE)

P("N05", "A multiplex network acts as the multilayer network with explicit couplings",
  """For every multiplex network the degrees, strengths, neighbour iterations (all directions, with any filter or slice), link reads and edge
  list equal those of the MultilayerNetwork in which the same intra-layer links and all coupling links are stored explicitly.
  This holds for categorical, ordinal, absent and network couplings in each aspect, directed or not, and when nodes are missing from some layers.""",
  [IN, CF], "all multiplex networks up to the bound, all coupling kinds per aspect, filters",
  "Tests check a few degrees for one-aspect categorical networks; coupling kind x aspects x interconnection x direction is not sampled.",
  ["pymnet/net.py"], [("coupling neighbours and degrees", "net.py MultiplexNetwork._iter_dim/_get_dim_degree/_get_dim_strength"), ("dimension selection", "net.py _select_dimensions")],
  ["deg*, str*, iter_*", "net.edges"], "differential: multiplex network against reference and against an explicit multilayer network", PBT_NOTE)

P("N06", "The supra-adjacency matrix is the network's link table",
  """The supra-adjacency matrix of any network lists every node-layer once in its label list, in the order of its rows and columns, and each entry is
  the weight of that link, zero when there is none; leaving couplings out zeroes exactly the links between different layers.
  Row and column sums are the out- and in-strengths and the matrix of an undirected network is symmetric.""",
  [IN, CF], "all networks with no-edge value 0, multilayer and multiplex, 0-2 aspects",
  "Tests compare two small matrices.", ["pymnet/net.py", "pymnet/transforms.py"],
  [("matrix construction", "net.py get_supra_adjacency_matrix"), ("wrapper", "transforms.py supra_adjacency_matrix")],
  ["get_supra_adjacency_matrix()"], "entrywise against the reference links, plus strength/edge-count metamorphic relations", PBT_NOTE)

P("T01", "Aggregation and overlay sum link weights over the dropped layers",
  """aggregate gives, on the remaining aspects, the link between two node-layers with the sum of the weights of all links that project onto that
  pair (links projecting to a self-link only with selfEdges), keeping all nodes, remaining layers and node-layers, direction and no-edge value.
  overlay_network gives each node pair the sum of its intra-layer weights. Neither changes its input, and aggregating aspects one by one
  equals aggregating them together.""",
  [IN, CF], "all networks with 1-2 aspects, any aspect selection, directed/undirected, aligned or not",
  "Tests aggregate two fixed networks over one aspect.", ["pymnet/transforms.py"],
  [("projection and summation", "transforms.py aggregate"), ("overlay", "transforms.py overlay_network")], ["returned network", "input network"],
  "reference projection oracle and stepwise metamorphic relation", PBT_NOTE)

P("T02", "subnet returns the induced subnetwork and subnet_iter all subnetworks once",
  """subnet returns exactly the selected nodes and layers that exist, the node-layers among them and every link between them (none with nolinks),
  as the same kind of network with the same couplings, or in the given target network; names not in the network are ignored and the result
  shares no state with the original. Taking a subnetwork of a subnetwork equals taking the intersection of the selections.
  subnet_iter yields every subnetwork over the removable dimensions (and link subsets, couplings kept, when links may be removed) exactly once.""",
  [IN, CF], "all networks, all selections (including None, unknown and repeated names), all target kinds",
  "Tests use one network and a few selections.", ["pymnet/transforms.py"],
  [("node-layer and link copying, two strategies by degree", "transforms.py subnet"), ("enumeration", "transforms.py subnet_iter")], ["returned networks", "input network"],
  "reference induced-subgraph oracle; exhaustive comparison of the enumerated multiset on small networks", PBT_NOTE)

P("T03", "relabel and normalize rename nodes and layers and change nothing else",
  """relabel maps every node and layer through the given (possibly partial) injective maps, carrying node-layers, links, weights, couplings and
  network kind over unchanged, without modifying the input network or the caller's maps, and relabelling back restores the original.
  normalize renames nodes and layers to consecutive integers from the requested starts in sorted order, and the maps it returns are exactly
  that renaming in the requested direction.""",
  [IN, CF], "all networks, injective partial maps including permutations, all return-map options and starts",
  "Tests relabel two fixed networks.", ["pymnet/transforms.py"], [("renaming", "transforms.py relabel"), ("index assignment", "transforms.py normalize")],
  ["returned network and maps", "caller's arguments"], "reference renaming oracle and round trip", PBT_NOTE)

P("T04", "threshold, underlying graph and layer randomisation keep the right links",
  """threshold keeps all nodes, layers and node-layers and exactly the links whose weight satisfies the rule (>=, <=, >, <), coupling links included.
  get_underlying_graph has one node per node-layer, named by its string form, and the same links and weights. randomize_nodes_by_layer permutes,
  uniformly and independently in each layer, which node has which links, leaving each layer's node set, structure and weights intact.""",
  [IN, CF], "all networks, thresholds and rules; all random seeds for the randomisation",
  "threshold and the randomisation are untested; the underlying graph is tested on one network.", ["pymnet/transforms.py"],
  [("edge filter", "transforms.py threshold"), ("flattening", "transforms.py get_underlying_graph"), ("shuffling", "transforms.py randomize_nodes_by_layer")],
  ["returned networks"], "reference filter/flatten oracle; per-layer isomorphism check for the randomisation", PBT_NOTE)

P("D01", "Degree tables, densities and overlap degrees count the links",
  """degs returns for every node-layer its number of distinct neighbours (or how many node-layers have each), density is the number of links
  over the number of possible links (zero when none is possible), and multiplex_degs and multiplex_density give the same per layer.
  overlap_degs gives, for every set of layers and every node, the number of neighbours linked to it in exactly those layers.
  None of them changes the network.""",
  [IN, CF], "all networks: multilayer and multiplex, 0-2 aspects, directed/undirected, aligned or not, single nodes and empty networks",
  "Tests look at three small aligned networks; overlap_degs and networks that are not fully interconnected are untested.",
  ["pymnet/diagnostics.py"], [("degree tables", "diagnostics.py degs/multiplex_degs"), ("densities", "diagnostics.py density/multiplex_density"),
                              ("overlaps", "diagnostics.py overlap_degs")], ["returned tables"],
  "generated networks against counts made from the reference links", PBT_NOTE)

P("D02", "dijkstra gives the true distances and exactly the links on shortest paths",
  """dijkstra returns for every node-layer reachable from the sources the smallest total weight of a path from the nearest source, and as the forest
  the network of exactly those directed links that lie on some shortest path (all ties kept).
  With aspects left out (dijkstra_mlayer_prune) the distance of a node is the smallest over its left-out layers and the forest keeps exactly the
  shortest paths to those minimisers. It terminates for every non-negative weighting and node naming, and changes nothing.""",
  [IN, CF], "all networks with non-negative weights (zero weights included), 0-2 aspects, one or two sources, any aspects left out",
  "Tests compute distances on two networks with unit weights; ties, zero weights and pruning depend on the whole weighting.",
  ["pymnet/diagnostics.py"], [("search and tie handling", "diagnostics.py dijkstra"), ("source filter, pruning", "diagnostics.py dijkstra_mlayer_prune/dijkstra_sources"),
                              ("neighbour iteration", "net.py iter_neighbors")], ["distances", "forest"],
  "generated weighted networks against Bellman-Ford and the tight-link set", PBT_NOTE)

P("M01", "Configuration models realise exactly the requested degrees",
  """For every degree sequence with room for the edge swaps conf and single_layer_conf return a simple network in which every node has exactly the degree
  requested for it (or exactly the requested degree distribution), in every layer, with the requested layers and couplings; given a network
  they keep its nodes, layers and each node's degree per layer. conf_overlaps gives every node the requested number of links in exactly each
  set of layers. Inputs are not modified and an odd degree sum is refused.""",
  [IN, CF, SE], "all degree sequences (sparse to regular dense), forms of input, couplings, and random seeds",
  "Tests check one random sequence per model; stub pairing and edge swaps go wrong only for particular draws.",
  ["pymnet/models.py"], [("stub matching and swaps", "models.py single_layer_conf"), ("input forms", "models.py conf/conf_overlaps")],
  ["returned networks", "arguments"], "generated degree sequences and seeds; degrees recounted from the links", PBT_NOTE)

P("M02", "Random and full models have exactly the nodes, layers and links asked for",
  """er, er_partially_interconnected, single_layer_er, full, full_multilayer and er_multilayer return the kind of network requested with exactly the requested
  nodes, layers, node-layers and couplings, no self-links or repeated links, and exactly the requested number of links (all for p=1 and full
  networks, none for p=0). Every pair of nodes is linked with the same probability, p or links over pairs. Impossible requests are refused.""",
  [IN, CF, SE], "all node sets, layer forms, probabilities and link counts up to the bound, and random seeds",
  "Tests look at link counts for one size; boundary probabilities, empty layers and uniformity are not tested.",
  ["pymnet/models.py"], [("single layer draws", "models.py single_layer_er"), ("layer forms", "models.py er/er_partially_interconnected/full"),
                         ("multilayer", "models.py er_multilayer/full_multilayer")], ["returned networks"],
  "generated requests and seeds against exact counts; 6.5-sigma frequency bounds for uniformity", PBT_NOTE)

P("M03", "Overlap, attachment, small-world and geometric models keep their counts",
  """er_overlaps_match_aggregated has the requested share of links in exactly each set of layers and the same total for every choice; in ba_total_degree every
  node from the m-th on brings exactly m links to older nodes in each layer and prefers those of high total degree; ws has the requested links
  per layer, a ring lattice when p is zero; geo places shared node positions and about the requested links.
  All have exactly the requested nodes, layers and couplings and no self-links.""",
  [IN, CF, SE], "all sizes, per-layer parameters, overlap shares and random seeds up to the bound",
  "Tests check one parameter choice or nothing at all (ws, geo).", ["pymnet/models.py"],
  [("overlaps", "models.py er_overlaps_match_aggregated"), ("attachment", "models.py ba_total_degree"), ("rewiring", "models.py ws"), ("geometry", "models.py geo")],
  ["returned networks"], "generated parameters and seeds against exact counts and wide statistical bounds", PBT_NOTE)

P("I01", "Files read give the networks they describe and files written describe them",
  """read_ucinet reads every valid DL full-matrix text (any keyword case, order, spacing, row wrapping; labels, row/column, embedded and level labels; one
  or many matrices; from a path, file or lines) as exactly the described nodes, levels and links and refuses incomplete or malformed input.
  read_edge_files gives a link per row; write_json and write_edge_files write every node, layer and link exactly once with its weight,
  and what is written reads back as the same links.""",
  [IN, CF], "all DL texts over the grammar up to 5 nodes and 3 matrices, all edge rows, all one-aspect multiplex networks",
  "Tests read eight fixed texts; the format has combinations of seven independent options.", ["pymnet/netio.py"],
  [("DL reader", "netio.py read_ucinet"), ("edge files", "netio.py read_edge_files/write_edge_files"), ("JSON", "netio.py write_json")],
  ["networks read", "files written"], "generator of DL texts from a network model, round trips, malformed variants", PBT_NOTE)

P("X01", "NetworkX functions answer for pymnet networks as for equal NetworkX graphs",
  """A NetworkX function called through pymnet.nx on an undirected monoplex network (or a layer of a multiplex network) gives the answer NetworkX
  gives for the graph with the same nodes, links and weights; graphs it returns and networks from its generators are pymnet networks that share no state with the input.
  Changes through the wrapper appear in the network and the other way round, and NetworkX is left as it was, also after an exception.
  Other networks are refused.""",
  [HI, IN, CF], "all small undirected monoplex networks, about 90 functions, 27 generators, histories of changes through either side",
  "Tests call three functions; the wrapper replaces the storage below all of NetworkX.", ["pymnet/nxwrap.py", "pymnet/nx.py"],
  [("dict-like adjacency", "nxwrap.py MonoplexGraphNetworkxView and adjacency classes"), ("function wrapping", "nxwrap.py networkxdecorator"), ("namespace", "nx.py")],
  ["return values", "wrapped network", "networkx.Graph"], "differential against native NetworkX on generated networks and change histories", PBT_NOTE)

P("G01", "Isomorphism functions agree with trying every renaming",
  """Two networks are isomorphic over the allowed aspects exactly when some renaming in those aspects alone maps every node, layer, node-layer and link of
  one onto the other; get_isomorphism then returns such a renaming that relabel confirms, and raises otherwise. Complete invariants are equal
  exactly for isomorphic networks; automorphism groups and generators are exactly the renamings preserving the network.
  Backends agree and nothing is modified.""",
  [IN, CF], "all pairs of small undirected networks and modified renamings, 0-2 aspects, every set of allowed aspects, both backends",
  "Tests compare some hand-built pairs; the reduction to coloured graphs has to be right for every structure and aspect set.",
  ["pymnet/isomorphisms/isomcore.py", "pymnet/isomorphisms/__init__.py", "pymnet/isomorphisms/nxbackend.py", "pymnet/isomorphisms/blissbackend.py"],
  [("auxiliary graph", "isomcore.py AuxiliaryGraphBuilder"), ("backends", "nxbackend.py, blissbackend.py"), ("public functions", "isomorphisms/__init__.py")],
  ["is_isomorphic", "get_isomorphism", "get_complete_invariant", "get_automorphism_group/generators"],
  "generated pairs of networks (renamed, renamed and modified) against a search over all renamings", PBT_NOTE)

P("N07", "Modularity view shows link weights less the null model of each layer",
  """For an undirected network with aspects the modularity view gives, for every pair of node-layers, the link weight between layers (couplings included) and inside
  a layer the weight less gamma times the product of the two intra-layer strengths over the summed strengths of the layer; a layer without
  links keeps zeros. With gamma one the entries of a layer sum to zero, and the network is not changed.""",
  [IN, CF], "all undirected multilayer and multiplex networks with positive weights, 1-2 aspects, gamma values",
  "The view has no tests.", ["pymnet/net.py"], [("view", "net.py ModularityMultilayerNetworkView"), ("sliced strengths", "net.py MultilayerNode.str")],
  ["view entries"], "generated networks against the formula evaluated on the link dictionary", PBT_NOTE)

P("S01", "Subgraph enumeration finds every acceptable subgraph exactly once",
  """On every undirected one-aspect network ESU with all probabilities one and the naive enumeration both report, exactly once each, the induced subgraphs
  [nodes][layers] that are connected, have no empty node or layer and meet the requirements (numbers of nodes and layers, or sizes and
  intersections strict, bounded, free or common to all layers), to a list or a callable, with the network copied or not and unmodified.
  A custom check sees every connected candidate of the size once, links intact; ambiguous requirements are refused.""",
  [IN, CF], "all one-aspect networks up to 5 nodes and 3 layers, all subgraph sizes, every documented form of requirement",
  "Tests compare the two enumerations with each other on random networks for some requirements; exactly-once depends on the order of every extension step.",
  ["pymnet/sampling/esu.py", "pymnet/sampling/dumb.py"],
  [("extension rules", "esu.py sample_multilayer_subgraphs_esu/_extend_subgraph"), ("requirement forms", "esu.py, dumb.py argument handling"), ("checks", "reqs.py")],
  ["results list", "callable calls", "custom check arguments"], "generated networks and requirements against brute-force enumeration", PBT_NOTE)

P("S02", "Subgraph sampling draws each subgraph with the product of the probabilities",
  """With sampling probabilities ESU returns a subset of the acceptable subgraphs without repetitions, the same for the same seed whether results go to a list or a
  callable; each acceptable subgraph is drawn with the product of the given probabilities, so probabilities of one give all and a zero gives none.
  Neither the network nor the list of probabilities changes, whether the network is copied or not.""",
  [IN, SE], "all one-aspect networks up to the bound, probability lists, seeds, copying or not",
  "Tests check sampling counts of a few networks; the product rule can fail at one depth only.",
  ["pymnet/sampling/esu.py"], [("depth-wise sampling", "esu.py p[depth]"), ("copy and edge removal", "esu.py copy_network")],
  ["results over seeds"], "generated networks and probabilities; subset and repeatability exactly, frequencies within 6.5 standard deviations", PBT_NOTE)

P("S03", "Subgraph requirement checks and sampling test networks mean what they say",
  """The relaxed check accepts exactly connected induced subgraphs without empty nodes or layers; the default check also needs some assignment of layers to roles with the
  given sizes and the given (or at most, or any) intersections, whatever the order of names. The required lengths are the size of the union
  and the number of sets; inconsistent requirements are refused. Generators of sampling networks give exactly the requested node-layers and uniform draws.""",
  [IN, CF, SE], "all subgraphs of generated networks, requirements derived from them and perturbed, both intersection types",
  "Tests try hand-made requirements on few networks; role assignment is a search over permutations.",
  ["pymnet/sampling/reqs.py", "pymnet/sampling/creators.py"], [("role assignment", "reqs.py default_check_reqs"), ("inclusion-exclusion", "reqs.py default_calculate_required_lengths"),
                                                               ("creators", "creators.py")], ["return values", "networks"],
  "generated subgraphs and requirements against set arithmetic over all role permutations", PBT_NOTE)

P("C01", "Single-layer clustering coefficients follow their formulas",
  """For every undirected network without self-links and with positive weights, and for every layer and aggregate of a multiplex network, the local clustering
  coefficient, the weighted coefficients of Zhang, Onnela and Barrat, the global Zhang coefficient and the mean of the defined local values equal
  their formulas, and the undefReturn value (None for global ones) is returned exactly where the coefficient is undefined.
  Weighted ones do not depend on the weight scale and equal the unweighted one for equal weights.""",
  [IN, CF], "all weighted graphs up to 7 nodes, layers and aggregates of multiplex networks, any no-edge value",
  "Tests use two unweighted graphs; the weighted formulas are marked TODO.", ["pymnet/cc.py"],
  [("local coefficients", "cc.py lcc/cc_zhang/cc_onnela/cc_barrat"), ("global", "cc.py gcc_zhang/gcc_from_lcc")], ["returned values"],
  "generated weighted graphs against the formulas over all ordered pairs; scaling relations", PBT_NOTE)

P("C02", "Elementary cycle counts agree with the walks they stand for",
  """For every undirected unweighted multiplex network with categorical couplings the ten elementary 3-cycle counts of a node-layer equal the numbers of closed walks made of
  link steps, layer changes and steps to any other node of the layer, whichever implementation computes them (direct, aggregated network, matrices),
  and counts for a node, a layer or the network are the sums over the node-layers. Networks that are not fully interconnected are included in the direct counts;
  counting works for any network size.""",
  [IN, CF], "all multiplex networks up to 5 nodes and 4 layers, every node-layer, every calling form", "Tests compare implementations at one node-layer of random networks.",
  ["pymnet/cc.py"], [("direct counts", "cc.py cc_cycle_vector_bf"), ("aggregated", "cc.py cc_cycle_vector_anet"), ("matrices", "cc.py cc_cycle_vector_adj/gcc_aw_vector_adj"),
                     ("sums", "cc.py elementary_cycles/cc_aw_vector")], ["count tuples"], "generated networks; products of explicit step matrices as oracle", PBT_NOTE)

P("C03", "Alternating-walker clustering coefficients are the stated ratios of cycle counts",
  """For every undirected unweighted one-aspect multiplex network with categorical couplings the local, node, average and global alternating-walker coefficients,
  as a value for any weights w1,w2,w3 or step costs, or as a vector, are the ratios of the elementary 3-cycle counts to their connected-pair counts, zero where
  there is no pair, with or without a ready-made aggregated network. The matrix versions and those of walks taken in both directions give the ratios of their own walks.
  The network is not changed.""",
  [IN, CF], "all multiplex networks up to 5 nodes and 4 layers, every node-layer, weightings and calling forms",
  "Tests evaluate the coefficients on three fixed networks with two weightings.", ["pymnet/cc.py"],
  [("local and node", "cc.py lcc_aw/sncc_aw/sncc_aw_seplayers/sncc_aw_layercost"), ("average and global", "cc.py avg_lcc_aw/gcc_aw"), ("matrix and walk versions", "cc.py gcc_aw_seplayers_adj/gcc_moreno*")],
  ["returned values and vectors"], "generated networks; products of explicit step matrices as oracle", PBT_NOTE)

P("C04", "Other multiplex clustering coefficients follow their formulas",
  """For every one-aspect multiplex network without self-links the coefficients of Barrett (three implementations), Brodka (any threshold, directed and weighted), Battiston (both, directed networks too),
  Criado, of layer sequences, of the supra-adjacency graph and of its contractions equal their formulas over the link weights, with undefReturn where the denominator is zero.
  Implementations of one coefficient agree, an aggregated network given by the caller changes nothing, and the network is not changed.""",
  [IN, CF], "all multiplex networks up to 5 nodes and 4 layers, thresholds, aggregated network given or not",
  "Tests evaluate two fixed networks.", ["pymnet/cc.py"],
  [("coefficients", "cc.py cc_barrett*/lcc_brodka/lcc_battiston*/lcc_criado/cc_sequence/gcc_super_graph")], ["returned values"],
  "generated networks against the formulas over all tuples of nodes and layers", PBT_NOTE)

P("L01", "Graphlet tables list each connected graph and each orbit exactly once",
  """graphlets(n, layers, n_l) gives, for every size up to n, one representative of every class of connected multiplex graphs on n_l of the layers and no other,
  classes being up to renaming nodes and, unless fixed, layers (couplings kept), and its invariant table points from any renamed copy to that representative.
  Nodes or node-layers are in one automorphism orbit exactly when some renaming of the graphlet onto itself maps one to the other.
  Orbit lists and numbers enumerate every orbit once, and the orbit of a node of any network of at most n nodes is the matching one.""",
  [IN, CF], "graphlet parameters up to 5 nodes in one layer, 4 in two and 3 in three; couplings, layer names, fixed or free layers; all small networks",
  "The subpackage has no tests; completeness of an enumeration cannot be shown by examples.", ["pymnet/graphlets/graphlets.py", "pymnet/isomorphisms/isomcore.py"],
  [("enumeration", "graphlets.py graphlets/layer_combinations"), ("orbits", "graphlets.py automorphism_orbits/automorphism_orbits_nl/list_orbits/orbit_name"), ("numbers", "graphlet_measures.py orbit_numbers/ordered_orbit_list")],
  ["nets, invariants, orbit tables"], "generated parameters against brute-force enumeration with canonical forms over all renamings", PBT_NOTE)

P("L02", "Orbit counts are the connected induced subgraphs around each node",
  """For every network with the layers of a graphlet table, orbit_counts and orbit_counts_all give for each node and orbit the number of connected induced subgraphs of at most n nodes
  in which the node has that orbit, zeros included, and leave the network unchanged; networks whose graphlets are not in the table are refused with KeyError.
  The graphlet correlation matrix is the rank correlation of the counts with a row of ones added, leaving the counts unchanged, and the correlation distance is
  the Euclidean distance of the upper triangles, symmetric and zero on the diagonal.""",
  [IN, CF], "all networks of up to 6 nodes with tables of up to 4 nodes, node names, couplings, fixed or free layers; tables of counts",
  "The subpackage has no tests.", ["pymnet/graphlets/graphlet_measures.py"],
  [("counting", "graphlet_measures.py orbit_counts/orbit_counts_all/touching_orbit_nodes"), ("correlations", "graphlet_measures.py GCM/GCD/GCD_matrix")],
  ["count dictionaries", "matrices"], "generated networks against brute-force subgraph enumeration with canonical forms", PBT_NOTE)

P("L03", "Orbit equations hold on every network and independent ones are independent",
  """There is one orbit equation per pair of orbits that can be combined within n nodes, and for every node of every network the product of the two orbit counts (less the subtrahend, or the
  number of pairs for equal orbits) equals the stated combination of counts of larger orbits. The equations reported independent are among these,
  are independent and determine all others, and one distinct redundant orbit is given per independent equation.""",
  [IN, CF], "equations up to 5 nodes in one layer, 4 in two, 3 in three, fixed or free layers, all networks of up to 7 nodes",
  "The subpackage has no tests; an equation with a wrong coefficient still looks like an equation.", ["pymnet/graphlets/graphlets.py", "pymnet/graphlets/independent_equations.py"],
  [("equations", "graphlets.py orbit_equations/combine_orbits/merge_nodes/add_possible_edges/coefficient"), ("subtrahend", "graphlets.py subtrahend"), ("independence", "independent_equations.py")],
  ["equations on counts"], "generated networks: both sides evaluated with brute-force counts; rank of the gradients at a random network", PBT_NOTE)

P("V01", "Layouts place exactly the nodes, in the box, and keep what is fixed",
  """Every layout gives one finite coordinate pair to exactly the nodes (or, when nodes are not aligned, to exactly the node-layers) of any network, directed or not, is repeatable for a
  given random seed and does not modify the network. The Fruchterman-Reingold layout stays inside the box given, spans it when nothing is fixed, does not move fixed nodes or modify
  the initial coordinates given, whatever the aspects, iterations and distances. Normalizing coordinates is the linear map of their ranges to the box, in place or not.""",
  [IN, CF], "all networks of one aspect (two for the fr layout), layouts, boxes, initial and fixed coordinates",
  "The drawing tests only check that no exception is raised for one network.", ["pymnet/visuals/layouts.py"],
  [("layouts", "layouts.py get_layout/get_fruchterman_reingold_multilayer_layout"), ("normalization", "layouts.py normalize_coordinates"), ("via networkx", "nxwrap.py/layouts.py")],
  ["coordinate dictionaries"], "generated networks and parameters against invariants of the coordinates, and the linear map", PBT_NOTE)

P("V02", "A figure shows exactly the network with the properties asked for",
  """The figure made by draw has one plate per layer, one disc per node-layer at its coordinates scaled to the unit square, labels beside them, and lines along exactly the links (split at the layers they
  cross), stacked in layer order with the first on top and covered accordingly. Every visible property of each layer, node and link is the value in its dictionary (in undirected networks
  under either direction), else that given by its rule and modifiers, else the default, also when drawing repeatedly or to given axes, and the network and parameters are not modified.
  Tall stacks are scaled to fit, and unknown rules, shapes, backends or axes are refused.""".replace(". Tall stacks are", "; tall stacks are"),
  [IN, CF], "all networks of one aspect, coordinates, property dictionaries, rules (name, degree, layer, nodename, edgetype, edgeweight, scaled, order) and modifiers",
  "The drawing tests only check that no exception is raised for one network; nobody looks at the picture.", ["pymnet/visuals/drawcore.py", "pymnet/visuals/drawnet.py", "pymnet/visuals/drawassigners.py", "pymnet/visuals/drawbackends/mpl.py"],
  [("property values", "drawassigners.py PropertyAssigner and subclasses"), ("scene", "drawcore.py draw, drawnet.py NetFigure"), ("artists", "drawbackends/mpl.py")],
  ["artists of the returned figure"], "generated networks and parameters: the artists read back against a scene computed from the documentation", PBT_NOTE)

P("V03", "Web figures are valid scripts that contain exactly the network",
  """The page written by webplot is a script that runs and whose data are exactly the nodes, layers and intra-layer links with weights of the network, whatever characters are in the names, and
  writing it to a file name or file object gives the same page. The three.js page runs and builds one sphere per node-layer and a cylinder from end to end of exactly every link.
  The network is not modified.""",
  [IN, CF], "all multiplex networks (webplot) and networks of one aspect (three.js), odd names, gaps, sizes and coordinates",
  "The tests only run webplot once and do not execute the page.", ["pymnet/visuals/webplots.py", "pymnet/visuals/drawbackends/threejs.py", "pymnet/netio.py"],
  [("page", "webplots.py webplot"), ("data", "netio.py write_json"), ("scene", "drawbackends/threejs.py and threejs_template.html")],
  ["the scripts, executed"], "generated networks: the scripts are executed with node against stand-in libraries and the objects compared", PBT_NOTE)
