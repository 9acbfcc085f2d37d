package sx.models;

import com.github.benmanes.caffeine.cache.Cache;
import com.github.benmanes.caffeine.cache.Policy;
import com.github.benmanes.caffeine.cache.stats.CacheStats;
import java.util.ArrayList;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.concurrent.ConcurrentMap;
import java.util.function.Function;
import sx.Sym;

/**
 * Model of a size-bounded Caffeine cache: at any lookup any entry may have been evicted (the choice is nondeterministic),
 * an entry that is returned belongs to an equal key, null values are not stored.
 */
public class CacheModel<K, V> implements Cache<K, V> {
    private final List<Object> keys = new ArrayList<>();
    private final List<Object> vals = new ArrayList<>();
    private final List<Object> loading = new ArrayList<>();
    private int lookups;

    @SuppressWarnings("rawtypes")
    public static Cache build(com.github.benmanes.caffeine.cache.Caffeine b) { return new CacheModel(); }

    private int find(Object key) {
        if (key == null) throw new NullPointerException();
        for (int i = 0; i < keys.size(); i++) {
            if (keys.get(i).equals(key)) {
                if (Sym.choose("cache.evict." + lookups++, 2) == 1) {
                    keys.remove(i);
                    vals.remove(i);
                    return -1;
                }
                return i;
            }
        }
        return -1;
    }
    @SuppressWarnings("unchecked")
    @Override public V getIfPresent(Object key) { int i = find(key); return i < 0 ? null : (V) vals.get(i); }
    @SuppressWarnings("unchecked")
    @Override public V get(K key, Function<? super K, ? extends V> f) {
        int i = find(key);
        if (i >= 0) return (V) vals.get(i);
        for (Object k : loading) Sym.assume(!k.equals(key)); // another caller is loading it: this one would wait
        loading.add(key);
        try {
            V v = f.apply(key);
            if (v != null) put(key, v);
            return v;
        } finally { loading.remove(loading.size() - 1); }
    }
    @Override public Map<K, V> getAllPresent(Iterable<?> ks) {
        Map<K, V> m = new LinkedHashMap<>();
        for (Object k : ks) { V v = getIfPresent(k); if (v != null) m.put((K) k, v); }
        return m;
    }
    public Map<K, V> getAll(Iterable<? extends K> ks, Function<Iterable<? extends K>, Map<K, V>> f) { throw new UnsupportedOperationException(); }
    @Override public void put(K key, V value) {
        if (key == null || value == null) throw new NullPointerException();
        for (int i = 0; i < keys.size(); i++) if (keys.get(i).equals(key)) { vals.set(i, value); return; }
        keys.add(key);
        vals.add(value);
    }
    @Override public void putAll(Map<? extends K, ? extends V> map) { for (Map.Entry<? extends K, ? extends V> e : map.entrySet()) put(e.getKey(), e.getValue()); }
    @Override public void invalidate(Object key) {
        for (int i = 0; i < keys.size(); i++) if (keys.get(i).equals(key)) { keys.remove(i); vals.remove(i); return; }
    }
    @Override public void invalidateAll(Iterable<?> ks) { for (Object k : ks) invalidate(k); }
    @Override public void invalidateAll() { keys.clear(); vals.clear(); }
    @Override public long estimatedSize() { return keys.size(); }
    @Override public CacheStats stats() { throw new UnsupportedOperationException(); }
    @Override public ConcurrentMap<K, V> asMap() { throw new UnsupportedOperationException(); }
    @Override public void cleanUp() { }
    @Override public Policy<K, V> policy() { throw new UnsupportedOperationException(); }
}
