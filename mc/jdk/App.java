import java.util.*;
import java.util.concurrent.locks.LockSupport;
public class App {
  static class \ud835\udc9c { int x; }
  static class Sub extends Thread { Object name2; long tid = 99; int priority = 77; Sub(String n, Runnable r){ super(r, n);} }
  static class Кл { Object o; byte[] bs = new byte[3]; void run\u00e9(String a, int[][] b, \ud835\udc9c c) { Object loc = new Кл[2]; synchronized(this){ try { wait(); } catch (InterruptedException e) {} } System.out.println(loc); } }
  static Object[] keep = new Object[100];
  public static void main(String[] a) throws Exception {
    System.setProperty("тест ключ", "значение 😀");
    System.setProperty("latin", "é\u00ff");
    System.setProperty("empty", "");
    for (int i = 0; i < 400; i++) System.setProperty("key." + (char)('A'+i%26) + i, "v" + i);
    System.setProperty("AaAa","1");System.setProperty("BBBB","2");System.setProperty("AaBB","3");System.setProperty("BBAa","4");
    for (int i = 0; i < 32; i++) { StringBuilder sb = new StringBuilder("c."); for (int b = 0; b < 5; b++) sb.append((i>>b&1)==0?"Aa":"BB"); System.setProperty(sb.toString(), "col"+i); }
    java.lang.management.ManagementFactory.getRuntimeMXBean().getStartTime();
    for (int i = 0; i < 100; i++) keep[i] = i%3==0 ? new Кл() : i%3==1 ? new \ud835\udc9c() : new long[i];
    final Кл k = new Кл(); final Object lock = new Object();
    Thread t1 = new Thread(() -> k.run\u00e9("x", new int[2][3], null), "waiter é"); t1.start();
    Thread t2 = new Sub("спящий", () -> { try { Thread.sleep(1000000); } catch (InterruptedException e) {} }); t2.setDaemon(true); t2.setPriority(7); t2.start();
    Thread t3 = new Thread(() -> LockSupport.park(), "parked 😀"); t3.setDaemon(true); t3.start();
    Thread t4 = new Thread(() -> { synchronized (App.class) { synchronized(lock) { LockSupport.parkNanos(1000000000000L); } } }, "timed"); t4.start();
    Thread.sleep(300);
    Thread t5 = new Thread(() -> { synchronized (lock) { System.out.println(); } }, "blocked"); t5.start();
    Thread t6 = new Thread(() -> { long x = 0; while (true) x++; }, "busy"); t6.setDaemon(true); t6.start();
    Thread.sleep(300);
    System.out.println("ready"); System.out.flush();
    Thread.sleep(1000000);
  }
}
