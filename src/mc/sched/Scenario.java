package mc.sched;

/** A concurrent program over the product; a new instance is made for every execution. */
public interface Scenario {
  /** An object that is the same however often the programs are loaded. */
  Object POINTER = new StringBuilder("pointer");

  /** Another one, the same in all class loaders. */
  Object POINTEE = new Object();

  int threads();

  /** Builds the shared objects. */
  void setup();

  /** The calls of one thread; the text describes everything they returned. */
  String run(int thread);

  /** What {@link #run} returns when the thread runs alone. */
  String expected(int thread);
}
