p("C01", "Time bars partition the trades on a fixed clock grid",
  "Closing a stream of trades into time bars yields consecutive intervals of exactly the period, aligned to multiples of the period; each trade after the first grid point lies in exactly the interval (previous close, close] that contains its timestamp, empty intervals included. A closed bar never changes when later trades arrive.",
  [I, H], "all sorted nanosecond trade timestamps (ties, trades on or within nanoseconds of a boundary, empty intervals) and all periods",
  "the tests use a few hand-written tick lists on whole seconds; boundary and tie cases and sub-second periods at present-day timestamps are sampled at best",
  [L, K], [("clock construction and assignment", (L, "def _time_bar_indexer"))],
  ("barindex", "BarIndex.tla"),
  "Exhaustive over small trade sequences, random beyond; the specification computes in exact rationals. Trusts TLC, the number overrides and the replay harness.")
p("C02", "Tick, volume and dollar bars close exactly when their threshold is reached",
  "A tick, volume or dollar bar closes at the first trade at which the amount accumulated since the previous close reaches the threshold and at no other trade; only dollar bars carry the excess over. Bars hold consecutive trades, none twice.",
  [I, H], "all trade sequences and thresholds, including trades that exceed the threshold several times over",
  "the accumulators are exercised only through a few builder examples",
  [L, K], [("tick bars", (L, "def _tick_bar_indexer")), ("volume bars", (L, "def _volume_bar_indexer")), ("dollar bars", (L, "def _dollar_bar_indexer"))],
  ("barindex", "BarIndex.tla"), "Exhaustive over small trade sequences, random beyond; dyadic amounts, so that ties are exact.")
p("C03", "CUSUM bars follow the symmetric filter and never split a timestamp",
  "A CUSUM bar closes at a trade where the running sum of positive or of negative log returns reaches the larger of the floor and the volatility multiple known at that trade; a close is deferred to the last trade of a block with one timestamp. Bars begin at the first trade with a known volatility, and the accumulator that fired restarts from zero.",
  [I, H], "all price paths, volatility paths with unknown leading and inner values, floors, multipliers and timestamp ties",
  "there is no test of the CUSUM bar kit",
  [L, K], [("CUSUM bars", (L, "def _cusum_bar_indexer"))],
  ("barindex", "BarIndex.tla"), "Exhaustive over small paths, random beyond; within 1e-9 of the threshold both outcomes are accepted.")
p("C04", "A bar's OHLCV row is the aggregate of exactly its own trades",
  "Open, high, low, close, volume, VWAP, trade count and median trade size of each bar are those of the trades between its close and the previous one, bar by bar, for every way of forming the bars. An empty bar carries the last price and zero volume.",
  [I, H], "all trade sequences and all sequences of bar boundaries, including empty bars",
  "the tests compare a few examples; slices of one and several bars with gaps and a moving anchor are not enumerated",
  [B], [("aggregation", (B, "def comp_bar_ohlcv"))],
  ("baragg", "BarAgg.tla"), "Exhaustive over small bars, random beyond; float32 outputs compared within rounding.")
p("C05", "Directional bar features conserve and order the signed trade flow",
  "Per bar, buy and sell ticks, volumes and dollars are the sums over the trades of either side, spreads are taken over the side changes inside the bar, and the cumulative extremes are those of the running signed sums over the bar's trades in order. They depend only on the bar's trades (and the last price before it).",
  [I, H], "all signed trade sequences and bar boundaries, any magnitude, including bars with trades of one side only, of unknown side, or of a single trade",
  "the tests use fixed small arrays; first bars, one-sided bars and large magnitudes are not covered",
  [B], [("directional features", (B, "def comp_bar_directional_features"))],
  ("baragg", "BarAgg.tla"), "Exhaustive over small bars, random beyond.")
p("C06", "Trade size features describe the size distribution of each bar",
  "Mean size, share of volume in block trades, 95th percentile and concentration of trade sizes are those of the bar's own trades relative to the given or derived large-trade thresholds.",
  [I, C], "all trade size sequences, bar boundaries and threshold vectors",
  "the tests use constant thresholds and fixed arrays",
  [B], [("trade size features", (B, "def comp_bar_trade_size_features"))],
  ("baragg", "BarAgg.tla"), "Exhaustive over small bars, random beyond.")
p("C07", "A footprint accounts for every trade of its bar at its price level",
  "The footprint of a bar lists consecutive price levels from the bar's low to its high in tick steps; buy and sell volumes and ticks per level add up to the bar's, so that nothing is lost, doubled or put on a wrong level. Imbalances, runs, the price of most volume and the volume dispersion follow from those rows and the imbalance factor.",
  [I, C], "all trade sequences, boundaries, tick sizes and imbalance factors",
  "levels are exercised on exact integer examples; rounding of prices to ticks and diagonals at the edges are sampled",
  [B, U], [("footprint", (B, "def comp_bar_footprints")), ("imbalance and runs", (B, "def comp_footprint_features"))],
  ("baragg", "BarAgg.tla"), "Exhaustive over small bars, random beyond.")
p("C08", "Bar builders give the same tables whatever was called before",
  "A bar builder's tables depend only on its trades and parameters: not on which of its methods ran before, how often, or on the view selected on the trades in between calls on other objects. Building never modifies the trades or any array the caller passed in.",
  [H, C], "all call histories on a builder (and on several builders sharing one set of trades), including invalid calls in between",
  "each test calls one method once on a fresh builder",
  [B, D, K], [("cached bar boundaries and extremes", (B, "def _set_bar_close")), ("footprints need the OHLCV range", (B, "def build_footprints")), ("view", (D, "def set_view_range"))],
  ("builder", "Builder.tla"), "All call histories to a bound; values are compared with a fresh builder's and the caller's arrays with copies.")
p("C09", "Preprocessing keeps every trade once, in order, with its own side",
  "After preprocessing, the trades are in chronological order, each trade id appears once (its first occurrence), split fills of one order (same timestamp, price and side) are merged with their amounts added, and price, amount and side belong to the same trade. Timestamps are converted to nanoseconds and floored to the requested resolution without leaving the trade's unit.",
  [I, C], "all raw trade tables: any order, duplicates, gaps, units and resolutions, with or without ids and maker flags",
  "the tests check each step on its own on small sorted tables",
  [D, U], [("validation", (D, "def _validate_data")), ("sort", (D, "def _sort_trades")), ("merge", (U, "def merge_split_trades")), ("units", (D, "def _convert_timestamps_to_ns"))],
  ("trades", "Trades.tla"), "Exhaustive over tables of up to three rows, random beyond.")
p("C10", "The integrity report states exactly the discontinuities found",
  "The data is flagged as broken exactly when consecutive trade ids skip by more than the tolerance in time; the list of discontinuities names each such place with its ids, times and size, and the missing share is the share of ids missing at those places.",
  [I], "all raw trade tables with ids, in any order, with duplicates and jumps",
  "the tests check one gap in a sorted table",
  [D], [("validation", (D, "def _validate_data"))],
  ("trades", "Trades.tla"), "Exhaustive over tables of up to three rows, random beyond.")
p("C11", "A footprint container keeps its bars through slicing and conversion",
  "Slicing a set of footprints by position or by time selects exactly those bars with all their levels and per-bar values, and switching between list and array form, in any order and on any selection, changes nothing in it or in the containers it came from. The footprint table lists every level of every bar once, highest price first.",
  [I, H], "all sequences of slices, time ranges and conversions on all bars, including bars with equally many levels",
  "there is no test of slicing or of conversions in sequence",
  [D, U], [("selection", (D, "def __getitem__")), ("conversion", (D, "def cast_to_numpy")), ("table", (U, "def footprint_to_dataframe"))],
  ("fpbox", "Footprint.tla"), "All call histories to a bound; values are integers, compared exactly.")
p("C12", "The trade store returns exactly what was saved, over any history of saves",
  "After any sequence of saves (overwriting or appending, several months, several runs), loading a key, a list of keys or a time range returns exactly the trades that were saved in that range, once each, in order, with their sides; a save that refuses leaves the file as it was.",
  [H, C], "all histories of saves with overlapping or disjoint months, overwrite and append modes, and all query ranges",
  "the tests save once and load once",
  [D], [("save", (D, "def save_h5")), ("load", (D, "def load_trades_h5")), ("key selection", (D, "def _keys_for_timerange"))],
  ("store", "TradeStore.tla"), "All histories to a bound on a real HDF5 file in a scratch directory.")
p("C13", "Store metadata and integrity info describe all data under a key",
  "After any history of saves, the metadata of a key (first and last timestamp, record count, integrity flag, missing share) and its integrity table describe everything stored under the key, and the summary counts agree with the keys; gap inspection reports exactly the pairs of consecutive trades further apart than the limit.",
  [H], "all histories of saves of complete and incomplete trade batches",
  "the tests inspect one save",
  [D, IO], [("metadata", (D, "def save_h5")), ("summary", (IO, "def get_integrity_summary")), ("gaps", (IO, "def _find_gaps"))],
  ("store", "TradeStore.tla"), "All histories to a bound on a real HDF5 file in a scratch directory.")
p("C14", "Stored time bars read back and resample to the bars of the whole range",
  "Reading the stored one-second bars of any time range yields each second once; resampling them to a timeframe gives the rows obtained by aggregating the seconds of each interval: first open, highest high, lowest low, last close, summed volume and trades, volume-weighted price.",
  [H, C], "all sets of processed months, re-processing, query ranges and timeframes",
  "the tests read one month with a few bars",
  [IO], [("bar creation", (IO, "def process_key")), ("read", (IO, "    def read(")), ("resample", (IO, "def _resample"))],
  ("barstore", "BarStore.tla"), "Histories to a bound on a real HDF5 file in a scratch directory.")
p("C15", "Triple barrier labels report the first barrier touched inside the window",
  "Each event kept is labelled from the trades after its start and within its vertical barrier only: the touch is the first trade, not before the minimum holding time, whose side-adjusted log return reaches a barrier, or else the last trade of the window; label, return, touch time and closeness weight belong to that trade. Events with unknown leading features, too small a target or an uncovered window are dropped, and nothing else is.",
  [I, C], "all price paths, events, targets, barrier multipliers (infinite ones disable), windows, holding times, sides and minimum returns",
  "the tests cover chosen paths with one event kind each; touches at the window's edge, windows without trades and disabled barriers are not covered",
  [T, LK], [("search", (T, "def triple_barrier")), ("screening", (LK, "def _preprocess_features")), ("coverage", (LK, "def _drop_trailing_events"))],
  ("labels", "Tbm.tla"), "Exhaustive over small paths, random beyond; within 1e-9 of a barrier both outcomes are accepted.")
p("C16", "Overlapping labels share each trade and its return equally",
  "The uniqueness of a label is the mean over its life of one over the number of labels alive at each trade, and its attributed return is the absolute sum of the log returns over its life, each divided by that number; normalised attributions sum to the number of labels. A label overlapping no other has uniqueness one.",
  [I], "all price paths and all sets of label intervals",
  "the tests check given small sets",
  [W, LK], [("uniqueness", (W, "def average_uniqueness")), ("attribution", (W, "def return_attribution"))],
  ("labels", "Overlap.tla"), "Exhaustive over small label sets, random beyond.")
p("C17", "Final sample weights decay with age, average one and balance the classes",
  "Time decay is linear in cumulated uniqueness, ends at one for the newest sample and erases the oldest share for a negative intercept; the combined weights have mean one, and with labels every class of positive weight has the same total weight. Weights belong to the sample they were computed for.",
  [I, C], "all uniqueness, attribution, vertical and label vectors and decay intercepts",
  "the tests check given vectors and each part on its own",
  [W, LK], [("time decay", (W, "def time_decay")), ("class balance", (W, "def class_balance_weights")), ("combination", (LK, "def compute_final_weights"))],
  ("labels", "Final.tla"), "Exhaustive over small vectors, random beyond.")
p("C18", "The CUSUM filter fires exactly when a one-sided sum passes its threshold",
  "Event indices are exactly the positions where the running sum of log returns, floored at zero from below or capped at zero from above, passes the threshold of that position; the sum that fired restarts, the other does not. Later prices never change earlier events.",
  [I, H], "all price paths and constant or varying thresholds",
  "the tests check chosen paths",
  [FL], [("filter", (FL, "def cusum_filter"))],
  ("labels", "CusumFilter.tla"), "Exhaustive over small paths, random beyond; within 1e-9 of the threshold both outcomes are accepted.")
FT, FC = "finmlkit/feature/transforms.py", "finmlkit/feature/core/"
FB = "finmlkit/feature/base.py"
CORE = [FC + x for x in ("momentum.py", "volatility.py", "volume.py", "utils.py", "ma.py", "reversion.py", "trend.py", "correlation.py", "time.py")]
p("C19", "No indicator looks into the future",
  "The value of an indicator at a bar does not depend on any later bar: computed on the first bars alone, every column of every built-in transform equals the first part of the column computed on the whole history, in either backend.",
  [I, H], "all bar histories, missing values, parameters and cutting points, for each built-in transform",
  "a test compares a column with expected numbers for one history; it cannot tell whether a value would change when bars are appended",
  [FT] + CORE, [("transforms", (FT, "class Lag")), ("lagged returns", (FC + "utils.py", "def comp_lagged_returns"))],
  ("indicators", "Indicators.tla"), "Exhaustive over small histories, random beyond; compared within 1e-9.")
p("C20", "The compiled and the pandas backend of an indicator agree",
  "For every built-in transform the two backends return the same columns under the same names: equal values (up to rounding), missing at the same bars, or both refuse.",
  [I, C], "all bar histories, missing values and parameters, for each built-in transform",
  "the tests compare the backends on chosen histories, without missing or repeated values at the edges of the windows",
  [FT, FB] + CORE, [("transforms", (FT, "class Lag")), ("backend dispatch", (FB, "def __call__"))],
  ("indicators", "Indicators.tla"), "Exhaustive over small histories, random beyond; compared within 1e-7.")
p("C23", "Momentum and reversion indicators follow their definitions",
  "Lag, bar and time-window return, rate of change, percentage change, Wilder RSI, stochastic K, z-score, burst ratio, VWAP distance, trend slope, ADX, mean-reversion z-score and directional run length equal their published definitions bar by bar on the window that ends at the bar; they are missing where the window is not full or holds a missing value.",
  [I, C], "all histories of prices, volumes and timestamps, window lengths and options",
  "the tests compare chosen bars of a few histories",
  [FT] + CORE, [("momentum", (FC + "momentum.py", "def roc")), ("returns", (FC + "utils.py", "def comp_lagged_returns"))],
  ("indicators", "Indicators.tla"), "Exhaustive over small histories, random beyond; compared with the exact rational definition within 1e-7.")
p("C24", "Volatility indicators follow their definitions",
  "Exponentially weighted deviation (by bars and by time), realized volatility, Bollinger %B, Parkinson range, average true range, variance ratio, bi-power variation, kurtosis and Hurst exponent equal their definitions bar by bar on the bars up to and including that bar; missing values add neither weight nor information.",
  [I, C], "all histories of prices and timestamps, window lengths and options",
  "the tests compare chosen bars of a few histories",
  [FT] + CORE, [("volatility", (FC + "volatility.py", "def ewms")), ("average true range", (FC + "volatility.py", "def atr"))],
  ("indicators", "Indicators.tla"), "Exhaustive over small histories, random beyond; compared with the exact rational definition within 1e-7.")
p("C25", "Averages, flow and clock indicators follow their definitions",
  "Simple and exponential averages, flow acceleration, VPIN, price-volume correlation, clock cues, bar durations and rates, daily gap, opening range breaks and candle shapes equal their definitions bar by bar.",
  [I, C], "all histories of prices, volumes and timestamps, window lengths and options",
  "the tests compare chosen bars of a few histories",
  [FT] + CORE, [("averages", (FC + "ma.py", "def ewma")), ("flow", (FC + "volume.py", "def vpin")), ("clock", (FC + "time.py", "def time_cues"))],
  ("indicators", "Indicators.tla"), "Exhaustive over small histories, random beyond; compared with the exact rational definition within 1e-7.")
FK, FU = "finmlkit/feature/kit.py", "finmlkit/feature/utils.py"
p("C21", "A feature list builds the columns its features stand for",
  "Building a list of features gives, after the retained columns, one column under the chosen name for each output of each feature, equal to that feature evaluated on the bars and on the columns it refers to, in either backend and whatever else is in the list, and leaves the input frame alone. Built in topological order a list succeeds however it is ordered; built as listed, a feature that refers to a later one is refused.",
  [I, H], "all acyclic lists of features (transforms, chains, operators, external functions, references, renamed and multi-column outputs), both build orders, all bar histories",
  "the tests build a few fixed lists; sharing of intermediate columns makes a column depend on what was built before it",
  [FK, FU, FB, FT], [("build", (FK, "def build(")), ("chains", (FK, "def _run_pipeline")), ("topological order", (FK, "def topological_order")), ("cached operands", (FB, "class BinaryOpTransform"))],
  ("kit", "FeatureKit.tla"), "Every list of up to two features from a catalogue exhaustively (thorough: three), random lists of up to five beyond.")
p("C22", "A saved feature list builds the same matrix when it is loaded",
  "A list of features saved to a file and loaded again builds, on any bars, the columns of the original under the same names, and has the same configuration.",
  [I, H], "all serialisable lists of features with any parameters, renamed outputs and operator trees, all bar histories",
  "the tests round-trip a few lists; a parameter that is dropped or misread shows only for non-default values",
  [FK, FU, FT], [("save", (FU, "def transform_to_config")), ("load", (FU, "def transform_from_config"))],
  ("kit", "FeatureKit.tla"), "Every list of up to two features from a catalogue exhaustively (thorough: three), random lists of up to five beyond.")
p("C28", "Arithmetic on features is arithmetic on their columns",
  "An expression of features (sums, differences, products, quotients, minima, maxima, constants on either side, absolute value, logarithms, powers, clipping, rolling and exponential statistics, lags) evaluates bar by bar to that expression of the columns, missing where an operand is.",
  [I, H], "all expression trees and bar histories",
  "the tests evaluate single operators on one history",
  [FK, FB], [("operators", (FK, "def __add__")), ("applied functions", (FK, "def apply")), ("evaluation", (FB, "class ConstantOpTransform"))],
  ("kit", "FeatureKit.tla"), "Catalogue exhaustively, random trees up to depth three.")
p("C26", "The structural break test follows its definition",
  "At each bar after the warm-up the up and down scores are the largest standardised rise or fall of the log price from an earlier level of the window, less the critical value at that level, clipped to plus or minus ten; flags mark positive scores, and ages count the bars since the last flag up to the chosen maximum.",
  [I, H], "all positive price histories, window lengths, warm-ups and age limits",
  "the tests check shapes, missing values and finiteness, no value",
  [FT, FC + "structural_break/cusum.py"], [("statistic", (FC + "structural_break/cusum.py", "def _comp_max_s_nt")), ("windows", (FC + "structural_break/cusum.py", "def cusum_test_rolling")), ("transform", (FT, "class CUSUMTest"))],
  ("indicators", "Indicators.tla"), "Exhaustive over small histories, random beyond; where two levels tie within 1e-9 for the largest departure, or a score is within 1e-8 of zero, the outcome is left open.")
FV = FC + "volume.py"
p("C27", "The volume profile of a window follows its definition",
  "At each bar with a full window, all volume traded in that window falls into price buckets; the point of control is the first bucket with most volume, the value area grows from it two buckets at a time towards the side with more volume until it holds the chosen share, and the share above is that of the buckets above it. A range of bars, and a profile that develops from a start, give the same on the bars they cover, and no bar's profile depends on later bars.",
  [I, H], "all footprints, window lengths, bucket counts and shares, ranges and starts",
  "the tests build one sample profile and check shapes and ranges",
  [FV], [("window", (FV, "def aggregate_footprint")), ("buckets", (FV, "def bucket_price_levels")), ("value area", (FV, "def comp_poc_hva_lva")), ("rolling", (FV, "def volume_profile_rolling")), ("developing", (FV, "def volume_profile_developing"))],
  ("vp", "VolumeProfile.tla"), "Every history of three bars from a catalogue exhaustively (thorough: four), random histories beyond.")
p("C29", "The inferred price tick is the coarsest grid that carries every price",
  "When no price tick is given, the tick is the largest step of which every price among the first ten thousand trades is a whole multiple (none when all are the same price). A footprint built on it keeps each trade at exactly its own price.",
  [I], "all decimal or binary-fraction prices on a common grid, in any order and with any repetitions",
  "the tests try seven price lists whose steps are powers of ten or a half",
  [U, B], [("inference", (U, "def comp_price_tick_size")), ("footprint without a tick", (B, "def build_footprints")), ("levels", (B, "def comp_bar_footprints"))],
  ("tick", "PriceTick.tla"), "Every sequence of three prices from a catalogue exhaustively (thorough: four), random price runs beyond.")
p("C30", "Requests that make no sense are refused and change nothing",
  "A request with an argument its documentation rules out (wrong type, missing column or time index, unequal lengths, bounds the wrong way round, parameters out of range, unknown units, backends or operations) is refused with the documented class of error, and what it was given stays as it was. Any other request is carried out.",
  [C, I], "all combinations of the facts that decide whether a request makes sense, over labels, weights, filters, trades, views, builders, footprints, profiles, indicators and feature lists",
  "each test tries one wrong argument of one call; many refusals have no test, and none looks at what is left behind or at neighbouring requests that must not be refused",
  [LK, W, FL, D, B, FB, FK, FU, T], [("label requests", (LK, "raise ValueError(\"Horizontal barriers")), ("weights requests", (LK, "time_decay_intercept must lie")), ("filter requests", (FL, "Input time series must have")),
   ("trades requests", (D, "id is required if preprocess")), ("view requests", (D, "Start timestamp must be before")), ("indicator requests", (FB, "def _validate_input")), ("saved list requests", (FU, "Unsupported binary op"))],
  ("refusals", "Requests.tla"), "Every combination of facts with at most one reason to refuse (thorough: two), one concrete request each.")
p("C31", "A label set shows the labels of its last successful labelling",
  "However often and on whatever trades a label set is labelled, its labels, returns, weights, features and event counts are those of its last successful labelling, as if it had been labelled only then, and they belong to the same events. Before that they are refused; a refused labelling changes nothing.",
  [H], "all histories of labellings on growing or shrinking trades or views, refused labellings, weights and reads",
  "the tests label once on one set of trades",
  [LK], [("labelling", (LK, "def compute_labels")), ("events whose windows end", (LK, "def _drop_trailing_events")), ("weights", (LK, "def compute_weights"))],
  ("labelset", "LabelSet.tla"), "Every history of four calls (thorough: five) on three events, random beyond; values against a set labelled once.")
