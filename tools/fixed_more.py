{"message topics": ("C20 C21", "a lookup raced with the creation of a topic; publishing after a detach or receiving after a drop used freed memory"),
 "a ring buffer of capacity": ("C20 C21 C32", "a topic of capacity one was full and empty at the same time: senders waited for ever or lost the message"),
 "a ring buffer can be used": ("C32", "push after clear() wrote out of bounds"),
 "the lock free ring buffer": ("C32", "ULockFreeRingBufferQueue did not compile for any element type"),
 "wait of the semaphore": ("C36", "USemaphore::wait() never waited"),
 "a pool without threads": ("C07 C17 C22 C28", "with a pool that has no thread (a serial pipeline) tasks were queued and never executed"),
 "a singleton is initialised": ("C34", "two pipelines initialised or destroyed a shared singleton node twice, or destroyed it while the other one still used it"),
 "destroy waits for the work": ("C29 C12", "destroy() of a pipeline freed elements whose timed-out work was still executing"),
 "a failed profiling run": ("C35", "a failed perf() left its aspects in the pipeline and the pipeline initialised"),
 "a failed init or destroy": ("C30", "after a failed init() elements, daemons and threads stayed active and a retry was impossible; a failed destroy() skipped the rest"),
 "a failing thread creation": ("C30 C24", "a thread that could not be created terminated the process or went unnoticed"),
 "removing an initialised": ("C30", "removing an initialised pipeline destroyed its elements while its daemons and threads were still using them"),
 "a saved pipeline with": ("C31", "a file saved from a pipeline with parameters could not be loaded"),
 "loading a damaged file": ("C31", "a truncated or damaged file was loaded as a different pipeline, crashed or exhausted the memory; a failed write was reported as success"),
 "elements are initialised in": ("C30 C31", "a level set after registration had no effect on the order, and elements of one set were ordered by stale keys"),
 "a failing init, run or destroy of a pipeline in a manager": ("C28", "a failing init of a manager left pipelines initialised and the manager unusable, a run that threw lost the pipeline, a failed destroy could not be repeated"),
 "elements inside a group that timed out": ("C12", "the result of an element inside a timed-out group was reset while the group still used it, and destroy() did not wait for the element"),
 "an auxiliary thread that has not started": ("C27", "the monitor took a new auxiliary thread for an idle one before it had started and released it, with a time to live of one interval the pool never grew"),
 "the parameters used by an element": ("C15", "the used keys were read from a removed parameter (use after free), and an event handled by several threads corrupted the set of used parameters"),
 "suspending, resuming or cancelling a run": ("C12", "suspend, resume and cancel overwrote the timed-out state of elements: a timed-out group went on with its inner work and isTimeout() turned false"),
 "the next run and destroy() wait": ("C12", "an element whose timed-out work of an earlier run still executed was started a second time by the next run, and destroy() did not wait for a quorum group behind a timed-out group (use after free)"),
 "a node inside a group can spawn": ("C25", "spawn() failed for every node inside a cluster, condition or other group, because only the outermost element is marked as initialised"),
}
