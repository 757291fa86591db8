#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=observe,hook_needed=None)))
OB="esl/economics/markets/order_book/"
p("C01","Order books conserve order quantity",
 "For every order accepted by either order book, the submitted quantity equals the quantity reported filled plus the quantity reported cancelled plus the quantity still resting, after every operation. Every trade is reported exactly twice, once for the aggressor and once for the resting order, with equal positive quantity, opposite sides, the same price and the right owners. No report is issued for an order that does not exist.",
 ["histories","inputs"],"every sequence of order insertions (any side, price, quantity, lifetime, owner) and cancellations on either order book",
 "The order-book unit test does not compile at this commit and asserts on a few fixed sequences; conservation is a property of all interleavings of inserts, partial fills and cancels.",
 [OB+"static_order_book.hpp",OB+"binary_tree_order_book.hpp",OB+"execution_report.hpp"],
 [("match_at_level/insert",OB+"static_order_book.hpp"),("insert",OB+"binary_tree_order_book.hpp")],
 ["execution reports accumulated by the book"],
 [("reports","sequence of execution reports",OB+"basic_book.hpp")])
p("C02","Order books match in price-time priority",
 "An incoming order always trades first against the resting orders with the best price, and among equal prices against the one that was placed earliest, exhausting an order before it touches the next. A partial fill does not lose an order its place, and cancelling one order does not change the relative priority of the others.",
 ["histories","inputs"],"every history of insertions, partial fills and cancellations that leads to several resting orders per level and several levels",
 "Needs queues of several orders per level with cancellations at head, middle and tail before a sweep; the tests never build one and check priorities.",
 [OB+"static_order_book.hpp",OB+"binary_tree_order_book.hpp"],
 [("per-level linked list, best_bid_/best_ask_",OB+"static_order_book.hpp"),("multimap ordering",OB+"binary_tree_order_book.hpp")],
 ["order of match reports of one insertion"])
p("C03","Trades respect limits and the book is never crossed",
 "Every trade executes at the resting order's limit price, which is never worse than the incoming order's limit, and both parties are told that price. After every operation no resting buy is priced at or above a resting sell: everything that could trade within its limit did trade before an order is placed.",
 ["histories","inputs"],"every history of orders and cancellations on either order book",
 "A crossed book only appears after particular sequences (a cancelled or exhausted best level, an empty side, prices at the end of the range) that the tests do not sample.",
 [OB+"static_order_book.hpp",OB+"binary_tree_order_book.hpp"],
 [("insert",OB+"static_order_book.hpp"),("insert",OB+"binary_tree_order_book.hpp")],
 ["match and placement reports","bid()/ask()"])
p("C04","Best bid, best ask and open orders reflect the book",
 "At all times the quoted best bid is the highest price of a resting buy and is absent exactly when no buy rests, symmetrically for the best ask, and the listing of open orders contains exactly the identifiers of the orders that were placed and neither fully filled nor cancelled.",
 ["histories","inputs"],"every history of orders and cancellations on either order book, including emptied levels and one-sided books",
 "The published state depends on how the best level was emptied (fill or cancellation) and on prices at the boundary of the range; no stable test reads it.",
 [OB+"static_order_book.hpp",OB+"binary_tree_order_book.hpp",OB+"basic_book.hpp"],
 [("bid/ask/orders",OB+"static_order_book.hpp"),("bid/ask/orders",OB+"binary_tree_order_book.hpp")],
 ["bid(), ask(), orders()"])
p("C05","Cancellation is exact and identifiers are never confused",
 "Cancelling a resting order removes exactly that order and reports exactly its remaining quantity, side, price, owner and identifier, once; it is no longer listed among the open orders. Cancelling an order that was already filled, already cancelled or never placed changes nothing and reports nothing, and no identifier is ever given to two orders of one book.",
 ["histories","inputs"],"every history with cancellations of live and stale identifiers, with slots reused in between",
 "Stale cancels after slot reuse need a fill/cancel/insert/cancel sequence on one slot; no test does this.",
 [OB+"static_order_book.hpp",OB+"binary_tree_order_book.hpp","esl/computation/block_pool.hpp"],
 [("cancel",OB+"static_order_book.hpp"),("cancel",OB+"binary_tree_order_book.hpp"),("index assignment","esl/computation/block_pool.hpp")],
 ["cancel reports","orders()"])
p("C06","Immediate and fill-or-kill orders never rest",
 "An immediate-or-cancel order trades whatever is available within its limit and the rest is reported cancelled; a fill-or-kill order either trades completely in one operation or is reported cancelled in full without trading at all. Neither ever rests in the book.",
 ["histories","inputs"],"every book state and every immediate-or-cancel or fill-or-kill order, on either order book",
 "Whether a fill-or-kill order can be filled depends on depth summed across levels; no test submits one.",
 [OB+"static_order_book.hpp",OB+"binary_tree_order_book.hpp",OB+"order.hpp"],
 [("lifetime handling in insert",OB+"static_order_book.hpp"),("insert",OB+"binary_tree_order_book.hpp")],
 ["execution reports of one insertion"])
p("C07","The price-range book accepts every tick exactly",
 "For every price interval, lot size and currency the fixed-range book accepts an order at every price from the minimum to the maximum inclusive that can be expressed with that lot size, keeps different prices apart, and reports and quotes an order at exactly its price. Orders outside the range, of zero quantity or with another lot size are reported invalid and leave the book unchanged.",
 ["inputs","configurations"],"every valid interval/lot/currency configuration and every price in it; every invalid order in every book state",
 "The tick mapping is floating-point arithmetic over the whole interval; the (uncompiled) test samples 27 prices of one configuration.",
 [OB+"static_order_book.hpp","esl/economics/markets/quote.hpp","esl/economics/price.hpp","esl/mathematics/interval.hpp"],
 [("default_encode/default_decode/span",OB+"static_order_book.hpp")],
 ["placement reports, bid()/ask()"])
p("C08","The block pool hands out unique, increasing, stable slots",
 "Every insertion into the block pool yields an index strictly greater than all earlier ones and a stored value that stays readable under that index, at the same address, until it is erased. Erasing a live index frees it exactly once and reports one; erasing any other index reports zero and changes nothing; insertion fails with a length error exactly when the pool is full.",
 ["histories"],"every history of insertions, erasures of live, stale and never-issued indices, up to and beyond capacity",
 "The single test case fails at this commit and uses one fixed sequence.",
 ["esl/computation/block_pool.hpp"],[("emplace/erase free list and rounds","esl/computation/block_pool.hpp")],["emplace, erase, operator[], size"])
p("C09","The matching engine keeps instruments apart",
 "Orders are routed to the book of their own instrument and to no other, creating it on first use; an operation on one instrument never produces reports in, or changes, another instrument's book, and cancelling on an unknown instrument does nothing.",
 ["histories","inputs"],"every interleaving of orders and cancellations over several instruments",
 "No stable test uses the matching engine; isolation needs interleaved multi-instrument histories.",
 [OB+"matching_engine.hpp","esl/economics/markets/ticker.hpp"],[("insert/cancel routing",OB+"matching_engine.hpp"),("ticker ordering and hash","esl/economics/markets/ticker.hpp")],["books[...] reports and quotes"])
p("C10","The exchange reports to owners and serves market data",
 "Every execution report that an order or a cancellation requested by message produces is sent exactly once, with its instrument, to the owner of the order it concerns and to nobody else, with the latency of that recipient; so an owner can always account for its resting orders from the reports alone. A snapshot request is answered exactly once with the current best bid and ask. While a stream subscription is in force, and never after it was cancelled or its owner logged out, the subscriber sees every trade on the instrument exactly once and is told about every change of the best bid or ask; every market data message shows the current best bid and ask, except that subscriptions of depth zero receive trades only. The positions list exactly the participants that are logged on, with the supply they brought.",
 ["histories","inputs"],"every sequence of order, cancel, logon, logout and market-data messages from several participants",
 "test_exchange is a demonstration without assertions; wrong recipients or stale reports go unnoticed.",
 ["esl/economics/markets/centralized_exchange.hpp"],[("message callbacks and act","esl/economics/markets/centralized_exchange.hpp")],["outbox of the exchange, inbox of the participants"])
p("C11","Messages are delivered exactly once, to their recipient, when due",
 "Every message an agent sends is received exactly once, by the agent it is addressed to, in the first round at or after its delivery time in which that agent is processed, and never before that time. Messages to unknown recipients are refused with an error rather than dropped or misdelivered.",
 ["histories","schedules","inputs"],"every pattern of sends between agents with arbitrary delivery delays, over many rounds, with one or several threads",
 "Delivery depends on how inbox, wake-up times and rounds interact over many steps; the tests process one hand-made queue.",
 ["esl/interaction/communicator.cpp","esl/interaction/communicator.hpp","esl/simulation/model.cpp","esl/computation/environment.cpp"],
 [("process_messages","esl/interaction/communicator.cpp"),("step","esl/simulation/model.cpp"),("send_messages","esl/computation/environment.cpp")],["callbacks invoked on the recipient"])
p("C12","Callbacks run in priority order over a fixed message order",
 "When a message is processed every callback registered for its type, and only those, is invoked exactly once, in descending priority. Messages due together are processed by descending highest callback priority; among those of equal priority, in-order scheduling follows delivery time and then order of arrival, and with random scheduling the order depends only on the seed. The earliest next-event time returned by any callback or action is what the simulation uses next.",
 ["histories","inputs"],"every registration order, priority assignment and inbox content",
 "The unit tests register one or two callbacks and one queue.",
 ["esl/interaction/communicator.cpp","esl/interaction/communicator.hpp"],[("callback_map, process_message","esl/interaction/communicator.cpp")],["sequence of callback invocations"])
p("C13","Simulation time advances and no wake-up is missed",
 "Simulation time never runs backwards, a wake-up in the past is refused with an error, and every run over a finite interval with agents that ask for strictly later wake-ups terminates. An agent acts at its first round, at the time it last asked for and when a message becomes due, at no other time, always after the messages due were processed; no time point at which some agent is due is skipped, and each step returns, and sets the model time to, the earliest such time (at most the end).",
 ["histories","schedules"],"every wake-up pattern and message pattern of several agents over a bounded horizon",
 "The step function's minimum over callbacks, actions and messages in flight has to be right for every combination; the tests run one hand-written model.",
 ["esl/simulation/model.cpp","esl/simulation/model.hpp","esl/computation/environment.cpp"],[("step","esl/simulation/model.cpp")],["act() calls and their time interval"])
p("C14","Simulations are deterministic and independent of threads",
 "Two runs of the same model with the same parameters and sample produce identical agent behaviour, and running with several threads gives the same per-agent sequence of processed messages, actions and random seeds as running with one. Each agent is processed exactly once per round by exactly one thread, and the requested number of threads is the one the model uses.",
 ["schedules","configurations"],"every number of agents and threads, every schedule of the worker threads",
 "test_model_parallel runs one configuration once and does not compare with a sequential run.",
 ["esl/simulation/model.cpp","esl/simulation/parameter/parametrization.hpp"],[("work splitting and wake_up_times mutex","esl/simulation/model.cpp")],["per-agent activity traces"])
p("C15","Created agents run and deactivated agents stop",
 "An agent created through the model is activated before the next step, keeps the identity it was given and takes part in every later step until it is deactivated; from the next step on a deactivated agent neither acts nor receives, and it does not hold up the simulation. Activation and deactivation of one agent has no effect on others, and each happens exactly once.",
 ["histories"],"every interleaving of creations, activations, deactivations and steps",
 "The environment does not compile at this commit, so no test can exercise it.",
 ["esl/computation/environment.cpp","esl/simulation/agent_collection.cpp","esl/simulation/model.cpp"],[("activate/deactivate","esl/computation/environment.cpp"),("create/activate/deactivate","esl/simulation/agent_collection.cpp")],["environment counts and act() calls"])
p("C16","Transfers conserve property and views agree",
 "When property moves between owners by transfer messages, the total quantity of every property over all owners plus transfers in flight is constant, nobody's holding becomes negative, and an owner that lacks the quantity fails with an error and keeps everything it had. After every operation an owner's full inventory and its per-type views of the same property agree.",
 ["histories","inputs"],"every sequence of takes, transfers (including self-transfers and multi-item ones) and insufficient requests among several owners",
 "test_owner does not build at this commit; conservation is about all histories and includes failure paths.",
 ["esl/economics/owner.hpp","esl/law/property_collection.hpp","esl/economics/accounting/inventory.hpp","esl/interaction/transfer.hpp"],
 [("transfer callbacks","esl/economics/owner.hpp"),("insert_into/erase_from","esl/economics/accounting/inventory.hpp")],["properties and inventories of the owners"])
p("C17","Identifiers are unique and form a hierarchy",
 "Every entity or agent created below a parent gets an identifier that extends the parent's by one digit group and that no other entity of that model ever receives, however creations are interleaved. Identifier comparison is a total order consistent with equality and hashing, and equality of identifiers is independent of the static type used to refer to the entity.",
 ["histories","inputs"],"every interleaving of creations below several parents and every pair of identifiers",
 "Tests compare a handful of literal identifiers.",
 ["esl/simulation/entity.hpp","esl/simulation/identity.hpp"],[("create","esl/simulation/entity.hpp"),("comparison operators and hash","esl/simulation/identity.hpp")],["identifiers returned by create"])
p("C18","The blocking queue is a linearizable FIFO",
 "Under any concurrent use every element pushed into the blocking queue is popped by exactly one consumer, in an order consistent with first-in-first-out, and nothing is popped that was not pushed. A blocking pop returns without an element only once the queue was closed and is empty, and closing wakes every waiting consumer; a closed queue accepts no further elements but still hands out those it holds. This holds for elements that can be copied, moved, or only one of these.",
 ["schedules"],"every interleaving of pushes, try-pushes, pops, try-pops and close by several threads",
 "No test covers the queue; a lost wake-up or duplicated element needs particular schedules.",
 ["esl/computation/blocking_queue.hpp"],[("mutex, condition variable, closed flag","esl/computation/blocking_queue.hpp")],["call/return histories of the queue operations"])
p("C19","The thread pool runs every task exactly once",
 "Every task submitted to the thread pool runs exactly once on one of its workers, with the arguments it was submitted with, also when the pool is destroyed right after submission, for any number of workers, producers and tasks, and including tasks submitted by running tasks. A task's result or exception reaches the submitter's future, and destroying the pool waits for all submitted tasks and terminates.",
 ["schedules","configurations"],"every number of workers, producers and tasks and every schedule, including work stealing",
 "No test uses the pool; the property depends on shutdown races.",
 ["esl/computation/thread_pool.hpp","esl/computation/blocking_queue.hpp"],[("worker loop with stealing, destructor","esl/computation/thread_pool.hpp")],["task executions and futures"])
p("C20","Quantities and prices are exact and guarded",
 "Dividing a quantity into parts returns parts that add up to it exactly and differ by at most one unit, larger parts first; subtracting more than is there is refused with an error and changes nothing, and increment and decrement move by exactly one unit. Prices and quotes in different currencies are never equal, and ordering or combining them, or quotes of different lot sizes, is refused with an error and changes nothing. Otherwise arithmetic, conversion by an exchange rate and ordering agree with integer arithmetic on the smallest unit whenever the result is representable. In floating point a price is its value in units of the currency, a quote that of a single item; a price made from floating point is truncated to minor units.",
 ["inputs"],"all quantities, divisors, prices, currencies and lot sizes within the representable range",
 "The tests check a few literals; some operators (decrement, greater-or-equal across lots) are never called.",
 ["esl/quantity.hpp","esl/economics/price.hpp","esl/economics/markets/quote.hpp","esl/economics/exchange_rate.hpp"],[("operators","esl/quantity.hpp"),("operators","esl/economics/price.hpp"),("operators","esl/economics/markets/quote.hpp")],["results and exceptions of the operators"])
p("C21","Dividends are announced, recorded and bounded correctly",
 "A company announces every dividend policy exactly once to each registered shareholder and to nobody else, in its first activation at or after the announcement date, and until then asks to be activated by that date and never in the past. A shareholder sends exactly one record per announced ex-dividend date and company, when the date falls within the interval for which it is activated (both ends included) and it holds shares of the company, stating precisely the shares of each class it holds then; other dates stay pending. The dividend per share is the profit in smallest currency units divided by all shares outstanding, rounded down, for the classes eligible for dividends and nothing for losses, so that the total never exceeds the profit.",
 ["histories","inputs"],"every capital structure, shareholder register, holding and schedule of announcement, ex-dividend and payable dates",
 "No test builds companies with shareholders and runs them through a dividend schedule.",
 ["esl/economics/company.cpp","esl/economics/finance/shareholder.cpp","esl/economics/finance/dividend.hpp","esl/economics/finance/dividend.cpp"],[("act, compute_dividend_per_share","esl/economics/company.cpp"),("submit_dividend_record","esl/economics/finance/shareholder.cpp"),("total_dividends","esl/economics/finance/dividend.cpp")],["messages sent by company and shareholders","compute_dividend_per_share()"])
p("C22","Valuations and cash flows add up",
 "The cash-flow statement over any period, which includes its beginning and not its end, is exactly the sum of the entries recorded in it, split into income and expenses by sign, and adjacent periods add up. Marking to market is exact: cash counts at face value, a stock at price times quantity divided by the lot size rounded toward zero, a lending contract as the negative of the securities owed, a loan as the negative of its whole units, everything in the reporting currency, converted at the given exchange rate where it is quoted in another; and something for which no price or rate is known is refused with an error.",
 ["histories","inputs"],"every sequence of recorded flows, every period and every portfolio, price and exchange-rate table",
 "No test touches the accounting module.",
 ["esl/economics/accounting/cash_flow_statement.hpp","esl/economics/accounting/standard.hpp"],[("history maps","esl/economics/accounting/cash_flow_statement.hpp"),("value","esl/economics/accounting/standard.hpp")],["results of statement and valuation calls"])
p("C23","Outputs and logs record every observation in order",
 "Every value put to an unbuffered model output is written to every attached stream exactly once, in the order it was put, and kept with its time for every output; a buffered output writes nothing before. Creating an output under an existing name gives the existing output or is refused, outputs with different names never mix, and attaching a stream to an unknown output is refused with an error. Output files hold exactly what was written to them, with or without a prefix directory. A log passes on exactly the messages at or above its filter level, in order, and never blocks.",
 ["histories"],"every interleaving of creations, stream attachments and puts over several outputs, and every sequence of log messages of all severities",
 "No test covers outputs.",
 ["esl/data/output.hpp","esl/data/output_base.hpp","esl/data/producer.hpp","esl/data/log.hpp","esl/data/file.cpp","esl/data/channel.hpp"],[("put/create_output","esl/data/output.hpp"),("log operators","esl/data/log.hpp")],["recorded history and stream contents"])
p("C24","Parameter samplers cover the parameter space as defined",
 "A grid sampler returns every combination of grid points exactly once, the points of each dimension being equally spaced with the interval's bounds as the first and last point (a single point is the lower bound). The Latin and the improved hypercube samplers return the requested number of samples such that in every dimension each level occurs exactly once; the uniform sampler's points lie within their intervals. The same arguments and seed give the same samples. A named parameter is read back as the value it was given, and reading an unknown name or with another type is refused.",
 ["inputs","configurations"],"all numbers of dimensions, intervals, densities, sample counts and seeds",
 "The tests use one or two sizes.",
 ["esl/simulation/parameter/sampler.hpp","esl/simulation/parameter/parametrization.hpp"],[("grid/latin_hypercube/improved_hypercube_sampling/uniform_random","esl/simulation/parameter/sampler.hpp"),("get","esl/simulation/parameter/parametrization.hpp")],["returned sample vectors"])
p("C25","Security and entity identifiers carry correct check digits",
 "For every admissible code, entered through any of the constructors, the complete ISIN, CUSIP, SEDOL and legal-entity identifiers consist of exactly the symbols given followed by the check digits of their standards. A CUSIP or legal-entity identifier that is given with wrong check digits where they are validated, an ISIN of the wrong length and a malformed country code are refused; an identifier generated for an entity is admissible and always the same.",
 ["inputs"],"all admissible codes",
 "Tests use a few well-known securities; a mapping error for one character or position is missed.",
 ["esl/economics/finance/isin.hpp","esl/economics/finance/cusip.hpp","esl/economics/finance/sedol.hpp","esl/law/legal_entity.hpp"],[("checksum","esl/economics/finance/isin.hpp")],["checksum()"])
p("C26","Impact markets clear each instrument from its own orders",
 "In every round of an impact market the impact function is evaluated for exactly the traded instruments for which the participants sent orders, with the net volume: the quantities of all participants' buys of this instrument minus their sells; the impact is the relative change of the unit price by it. Instruments the market does not trade have no effect, and orders of earlier steps are not counted. Whenever the market acts every participant is sent one message with the quotes of exactly the traded instruments for the next time step; a market that finds no orders waits for them within the step.",
 ["histories","inputs"],"every set of participants, instruments, prices, lots and order messages per round, driven directly and in simulations",
 "No test runs this market.",
 ["esl/economics/markets/impact_function/market.cpp","esl/economics/markets/impact_function/market.hpp"],[("clear_market, act","esl/economics/markets/impact_function/market.cpp")],["quotes sent, volumes given to the impact function, impacts, time of the next action"])
p("C27","Walrasian markets quote, clear and settle consistently",
 "A Walrasian price setter sends its participants the quotes of exactly the traded properties, once for each time point, and waits for their excess demand functions; those of earlier steps are not counted. It clears when there are any: every quote is moved to the price at which aggregate excess demand vanishes, within the circuit breaker and never to zero, for each property independently where demands are not coupled; properties that nobody demands keep their price. Each participant trades the demand it expressed at the new prices in whole units, up to the corrections by which purchases and sales of every property balance exactly. Buyers close short positions first, then receive units, and pay; sellers deliver what they hold first, then go short, and are paid, at the quote and lot size; what a participant owes and receives of the same property is netted, and nothing else is moved. Shareholders and bondholders know the latest quote of every property they follow, with its currency.",
 ["histories","inputs"],"every set of traded properties, quotes, lots, participants, positions and demand functions (affine, coupled and curved), driven directly and in simulations",
 "The code needs the Adept library, so that its tests are not even built.",
 ["esl/economics/markets/walras/price_setter.cpp","esl/economics/markets/walras/tatonnement.cpp","esl/economics/markets/walras/differentiable_order_message.cpp","esl/economics/finance/shareholder.cpp","esl/economics/finance/bondholder.cpp"],[("act, clear_market, compute_transfers","esl/economics/markets/walras/price_setter.cpp"),("compute_clearing_quotes","esl/economics/markets/walras/tatonnement.cpp"),("extract stock prices","esl/economics/finance/shareholder.cpp"),("extract bond prices","esl/economics/finance/bondholder.cpp")],["quotes and transfers sent, clearing prices, inventories, prices known to shareholders"])
p("C28","Distributed execution migrates agents without loss",
 "With message-passing execution every agent lives on exactly one node, migration moves it with its full state, and messages reach it wherever it is.",
 ["schedules","fault_sequences"],"every placement and migration schedule",
 "The code under WITH_MPI does not compile at this commit and MPI is not installed.",
 ["esl/computation/distributed/mpi_environment.cpp"],[("migrate, send_messages","esl/computation/distributed/mpi_environment.cpp")],["agent locations"])
p("C29","Records and containers are printed faithfully",
 "Delimited records written by the library are read back, by a reader that knows the delimiter, quote and escape characters, as exactly the fields given: every row, every field, every character of a text, whatever delimiters, quotes, escapes or line breaks it contains; this holds for the default and for any other choice of the three characters. A container sent to a stream shows every element exactly once, in its order, nested containers included, with the documented brackets and separators, and is not changed by printing.",
 ["inputs","configurations"],"all rows of texts and numbers, all delimiter/quote/escape characters, all containers",
 "Tests print a few small containers.",
 ["esl/data/format/delimiter_separated_values.hpp","esl/data/representation.hpp"],[("render, render_row, render_records","esl/data/format/delimiter_separated_values.hpp"),("operator <<","esl/data/representation.hpp")],["text written to the stream"])
p("C30","Archived values are restored exactly",
 "A value saved in an archive and loaded again equals the saved value, whatever value the object it is loaded into held before; several values are read in the order in which they were written, and saving changes nothing. This holds for quantities, prices, rates and rational numbers over their full range, quotes, identifiers, intervals, currency, country and legal-entity codes, jurisdictions, share classes, dividend policies, message headers and messages (with their addresses, times and contents), transfers with the inventory they carry, property maps, tuples and timings of agents.",
 ["inputs","histories"],"all values, all orders of saving and loading",
 "Tests archive nothing but a few identifiers.",
 ["esl/quantity.hpp","esl/economics/price.hpp","esl/economics/markets/quote.hpp","esl/mathematics/rational.hpp","esl/interaction/message.hpp","esl/interaction/transfer.hpp","esl/economics/finance/dividend.hpp","esl/simulation/identity.hpp"],[("serialize, save, load","esl/economics/price.hpp"),("serialize","esl/interaction/message.hpp")],["public fields of the objects before and after"])
p("C31","Intervals, powers and container algorithms are exact",
 "An interval contains exactly the numbers its bounds and closures admit, its size is the number of admitted integers, or the length, and it is a singleton or empty exactly when it admits one number or none. An integer power is the exact product. A slice, a concatenation, an enumeration and a conversion to an array contain exactly the elements selected, in order, and leave the source as it was. Fractions are allocated by rounding each of them up or down only, to whole numbers whose total is the rounded total of the fractions. Sampled barycentric points are nonnegative, distinct and sum to one; the geometric mean is exact on powers of two.",
 ["inputs"],"all intervals of every closure over integers and reals, all bases and exponents, all sequences, slices and fractions",
 "Tests use a few literals, of the closures and sizes that happen to work.",
 ["esl/mathematics/interval.hpp","esl/algorithms.hpp"],[("contains, empty, singleton, size","esl/mathematics/interval.hpp"),("pow, slice, concatenate, enumerate, allocate_fractions","esl/algorithms.hpp")],["returned values"])
p("C32","Codes of currencies, countries and markets identify, and their tables are right",
 "A text is a currency code (ISO 4217), a country code (ISO 3166-1 alpha-2) or a market identifier (ISO 10383) exactly when it has three, two or four capital letters (market identifiers also digits), and a currency has at least one subunit; any other text is refused. A code gives back the text it was made of; comparison is a total order in which two codes are equal exactly when their text (and the number of subunits) is the same; equal codes have equal digests and different currency and country codes different ones. Each listed currency has the code of its name, the number of minor units of ISO 4217 and its own name, each listed country and jurisdiction its code, name and legal tender. An amount of money is converted to and from whole subunits without ever creating any (rounding towards zero, to nearest, or away from zero, as asked), and rates and inflation are the exact fractions in lowest terms.",
 ["inputs"],"all texts, all entries of the tables, all amounts and rates that can be represented",
 "No test touches these headers apart from a few prices in USD.",
 ["esl/economics/iso_4217.hpp","esl/geography/iso_3166_1_alpha_2.hpp","esl/economics/markets/iso_10383.hpp","esl/economics/currencies.hpp","esl/geography/countries.hpp","esl/law/jurisdictions.hpp","esl/economics/money.hpp","esl/economics/rate.hpp","esl/economics/interest_rate.hpp","esl/algorithms.hpp"],[("constructor, denominator, comparison, hash","esl/economics/iso_4217.hpp"),("constructor","esl/economics/markets/iso_10383.hpp"),("tables","esl/economics/currencies.hpp"),("approximate","esl/economics/price.hpp"),("rounding","esl/algorithms.hpp")],["codes, names, denominators, comparisons, prices and rates returned"])
p("C33","A run is initialized, stepped, terminated and reported in that order",
 "Running a simulation initializes the model exactly once and before any step; each step is announced to the environment before any agent acts and reported after every agent has acted and the model time has moved to the next event; agents activated or removed in a step are worked off before the next step begins; after the last step, and only then, the model is terminated exactly once, and the environment is told that the run is over. The same holds for steps the user takes one at a time through the environment or the model.",
 ["histories","schedules"],"every run, however many steps it takes, however agents enter and leave, and whoever drives the steps",
 "Tests run a model to its end and look at its time only.",
 ["esl/computation/environment.cpp","esl/simulation/model.cpp"],[("run, step, activate, deactivate","esl/computation/environment.cpp"),("step, initialize, terminate","esl/simulation/model.cpp")],["calls of before_step, after_step, after_run, initialize, terminate and act, with the model time"])
p("C34","Recorded order feeds are read exactly",
 "Reading a file of an exchange's recorded order feed reports every full and delta update in it, once and in the order of the file, and nothing else: other records, and a partial record at the end, are passed over. Each event has the symbol without its padding, the status, the reason, the time in microseconds since midnight, the price (that is, the value of the quote divided by its lot) in dollars to the last recorded decimal, the quantity and the side of its record. The main session of an instrument are those additions and cancellations of exactly its symbol that are recorded while it is open.",
 ["inputs"],"every file of records, whatever their types, fields and decimals, and wherever it is cut off",
 "No test reads a feed: the header is not even compiled.",
 ["esl/data/format/openbook.hpp"],[("read_openbook, parse_main_session","esl/data/format/openbook.hpp")],["events reported to the callback", "elements of the session"])
p("C35","Market makers quote both sides around their reservation price",
 "The Avellaneda-Stoikov market maker bids its reservation price less half its spread, rounded down to the minor unit of the market's currency, and asks the reservation price plus half the spread, rounded up; the bid is below the ask. The reservation price is the market's price less inventory (long minus short) times risk aversion, variance and the fraction of the session that is left; the spread is risk aversion times variance and that fraction plus 2 ln(1 + risk aversion / k) / risk aversion, with the limit 2 / k when risk neutral. Thus inventory moves both quotes against it and leaves the spread, and a flat maker, or one at the close, quotes around the market's price.",
 ["inputs","histories"],"every market price, currency, inventory, time in the session, volatility, risk aversion (also none) and arrival rate",
 "Tests only compare the order of quotes for a few prices, volatilities and risk aversions.",
 ["esl/economics/markets/order_book/avellaneda_stoikov.hpp"],[("avellaneda_stoikov","esl/economics/markets/order_book/avellaneda_stoikov.hpp")],["bid and ask returned"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for q in P: f.write(json.dumps(q,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for q in P: jsonschema.validate(q,s)
print(len(P))
