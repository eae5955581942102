// Host types the checker of this TypeScript release does not know yet.
type TaskPriority = 'user-blocking' | 'user-visible' | 'background';
interface SchedulerPostTaskOptions { delay?: number; priority?: TaskPriority; signal?: AbortSignal; }
interface Scheduler { postTask<T>(callback: () => T | PromiseLike<T>, options?: SchedulerPostTaskOptions): Promise<T>; yield(): Promise<void>; }
declare var scheduler: Scheduler;
interface WeakMap<K extends WeakKey, V> { getOrInsertComputed(key: K, callback: (key: K) => V): V; getOrInsert(key: K, value: V): V; }
interface Map<K, V> { getOrInsertComputed(key: K, callback: (key: K) => V): V; getOrInsert(key: K, value: V): V; }
interface ParentNode { moveBefore(node: Node, child: Node | null): void; }
type NavigationType = 'push' | 'reload' | 'replace' | 'traverse';
type NavigationHistoryBehavior = 'auto' | 'push' | 'replace';
interface NavigationOptions { info?: any; }
interface NavigationNavigateOptions extends NavigationOptions { history?: NavigationHistoryBehavior; state?: any; }
interface NavigationResult { committed: Promise<NavigationHistoryEntry>; finished: Promise<NavigationHistoryEntry>; }
interface NavigationHistoryEntry extends EventTarget { readonly url: string | null; readonly key: string; readonly id: string; readonly index: number; readonly sameDocument: boolean; getState(): any; }
interface NavigationDestination { readonly url: string; readonly key: string; readonly id: string; readonly index: number; readonly sameDocument: boolean; getState(): any; }
interface NavigationInterceptOptions { handler?: () => PromiseLike<void>; focusReset?: 'after-transition' | 'manual'; scroll?: 'after-transition' | 'manual'; }
interface NavigateEvent extends Event { readonly canIntercept: boolean; readonly destination: NavigationDestination; readonly downloadRequest: string | null; readonly formData: FormData | null; readonly hasUAVisualTransition: boolean; readonly hashChange: boolean; readonly info: any; readonly navigationType: NavigationType; readonly signal: AbortSignal; readonly sourceElement: Element | null; readonly userInitiated: boolean; intercept(options?: NavigationInterceptOptions): void; scroll(): void; }
interface NavigationEventMap { navigate: NavigateEvent; currententrychange: Event; }
interface Navigation extends EventTarget { readonly canGoBack: boolean; readonly canGoForward: boolean; readonly currentEntry: NavigationHistoryEntry | null; back(options?: NavigationOptions): NavigationResult; forward(options?: NavigationOptions): NavigationResult; entries(): NavigationHistoryEntry[]; navigate(url: string | URL, options?: NavigationNavigateOptions): NavigationResult; reload(options?: NavigationNavigateOptions): NavigationResult; traverseTo(key: string, options?: NavigationOptions): NavigationResult; addEventListener<K extends keyof NavigationEventMap>(type: K, listener: (this: Navigation, ev: NavigationEventMap[K]) => any, options?: boolean | AddEventListenerOptions): void; removeEventListener<K extends keyof NavigationEventMap>(type: K, listener: (this: Navigation, ev: NavigationEventMap[K]) => any, options?: boolean | EventListenerOptions): void; }
interface Window { readonly navigation: Navigation; readonly scheduler?: Scheduler; }
declare var navigation: Navigation;
